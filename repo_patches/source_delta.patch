From fa9f8e9b5183e51a05f0b48e29f7f3f0c14bd4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 01/68] fix: emit an existing error call for allowed lifetimes
 of children and attributes

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..67e8d58 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From a79f01a63c0d417637afce9284e5c8a5bbccefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 02/68] fix: enforce every lifetime of a list, not only the
 first

---
 cocogen/dynamic_backend/gen_check_traversal.c    | 1 +
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 67e8d58..6578ca4 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -687,6 +687,7 @@ node_st *DGCHTilifetime(node_st *node)
         LifetimeAttributeGen(node);
     }
 
+    TRAVnext(node);
     return node;
 }
 
diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..285a1e6 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -99,6 +99,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 4a8a7ce7b0b49586365a8f74fc0e6b729e082301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 03/68] fix: number lifetime targets by their position during
 execution

---
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 58 +++++++++++++------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 285a1e6..e621104 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -20,6 +20,36 @@ static node_st *ast = NULL;
 static node_st *ste = NULL;
 static bool in_node = false;
 static bool in_lifetime = false;
+// ID the next encountered action has during execution.
+static int curr_action_id = 0;
+// ID of the last found action and the ID that follows it, and its nested actions.
+static int last_action_id = 0;
+static int last_next_action_id = 0;
+
+/* The number of IDs used by the actions, including the ones nested in phases. */
+static int CountActionIDs(node_st *actions)
+{
+    int count = 0;
+    for (; actions != NULL; actions = IACTIONS_NEXT(actions)) {
+        node_st *action = STlookup(ste, IACTIONS_REFERENCE(actions));
+        count++;
+        if (action != NULL && NODE_TYPE(action) == NT_IPHASE) {
+            count += CountActionIDs(IPHASE_IACTIONS(action));
+        }
+    }
+    return count;
+}
+
+static void FoundAction(node_st *node, node_st *action, int action_id)
+{
+    last_action = node;
+    last_node = action;
+    last_action_id = action_id;
+    last_next_action_id = action_id + 1;
+    if (NODE_TYPE(action) == NT_IPHASE) {
+        last_next_action_id += CountActionIDs(IPHASE_IACTIONS(action));
+    }
+}
 
 /**
  * Compare if two identifiers are equal by comparing their lower case form.
@@ -61,26 +91,25 @@ node_st *MITLinode(node_st *node)
 node_st *MITLiactions(node_st *node)
 {
     node_st *action_lookup = STlookup(ste, IACTIONS_REFERENCE(node));
+    // A phase can be referenced multiple times, so count during the walk.
+    int action_id = curr_action_id++;
     if (action_lookup == NULL) {
         CTI(CTI_ERROR, true, "Lifetime target(%s) does not reference a valid action.", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     if (NODE_TYPE(action_lookup) == NT_IPHASE) {
         if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
-            last_action = node;
-            last_node = action_lookup;
+            FoundAction(node, action_lookup, action_id);
             return node;
         }
         TRAViactions(action_lookup);
     } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
         if (CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)) {
-            last_action = node;
-            last_node = action_lookup;
+            FoundAction(node, action_lookup, action_id);
             return node;
         }
     } else if (NODE_TYPE(action_lookup) == NT_ITRAVERSAL) {
         if (CompareID(ITRAVERSAL_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)) {
-            last_node = action_lookup;
-            last_action = node;
+            FoundAction(node, action_lookup, action_id);
             return node;
         }
     }
@@ -115,18 +144,8 @@ node_st *MITLlifetime_range(node_st *node)
         info.last_column = 0;
         CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");
     } else {
-        LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
-        if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
-        } else {
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
-        }
+        LIFETIME_RANGE_ACTION_ID(node) = last_action_id;
+        LIFETIME_RANGE_NEXT_ACTION_ID(node) = last_next_action_id;
     }
     in_lifetime = false;
     curr_target = NULL;
@@ -140,6 +159,8 @@ node_st *MITLid(node_st *node)
     }
     curr_target = node;
     if (last_action == NULL) {
+        // 1 is the start phase.
+        curr_action_id = 2;
         TRAViactions(AST_START_PHASE(ast));
     } else {
         node_st *action = STlookup(ste, IACTIONS_REFERENCE(last_action));
@@ -156,6 +177,7 @@ node_st *MITLid(node_st *node)
         } else {
             last_action = NULL;
             last_node = NULL;
+            curr_action_id = last_action_id + 1;
             TRAViactions(action);
         }
     }
-- 
2.43.0


From f7c87040c36db92865910c475f51280f70eb22cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 04/68] fix: keep cycle state separate for nested phases and
 cycles

---
 copra/src/phase_driver.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..b23765b 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -17,7 +17,6 @@
 struct phase_driver {
     size_t level;
     size_t action_id;
-    size_t cycle_iter;
     size_t max_cycles;
     size_t breakpoint_id;
     enum pd_verbosity verbosity;
@@ -32,7 +31,6 @@ struct phase_driver {
 static struct phase_driver phase_driver = {
     .level = 0,
     .action_id = 0,
-    .cycle_iter = 0,
     .breakpoint_id = 0,
     .max_cycles = 100,
     .current_phase = NULL,
@@ -48,7 +46,6 @@ static void resetPhaseDriver()
 {
     phase_driver.level = 0;
     phase_driver.action_id = 0;
-    phase_driver.cycle_iter = 0;
     phase_driver.current_phase = NULL;
     phase_driver.fixed_point = false;
     phase_driver.action_error = false;
@@ -190,10 +187,15 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    // Phases and cycles can be nested in a cycle, so keep the state of the enclosing cycle.
+    bool fixed_point = phase_driver.fixed_point;
+    size_t cycle_iter = 0;
 
     do {
+        if (cycle) {
+            phase_driver.fixed_point = true;
+        }
         // If we cycle around, reset the action id.
-        phase_driver.fixed_point = true;
         phase_driver.action_id = curr_action_id;
         size_t action_counter = 0;
         enum ccn_action_id action_id = phase->action_table[action_counter];
@@ -203,8 +205,11 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
             action_counter++;
             action_id = phase->action_table[action_counter];
         }
-        phase_driver.cycle_iter++;
-    } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
+        cycle_iter++;
+        // A change in this cycle is a change for the enclosing cycle.
+        fixed_point = fixed_point && phase_driver.fixed_point;
+    } while(cycle && cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
+    phase_driver.fixed_point = fixed_point;
 
     if (phase_driver.phase_error) {
         if (phase_driver.verbosity > PD_V_QUIET) {
@@ -213,7 +218,6 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From f5cc5591983981d7fa82217312df8b816a7477a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 05/68] fix: removing a key from an empty bucket of a hash
 table

---
 palm/src/hash_table.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..56dd1ea 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -145,7 +145,11 @@ void *HTremove(htable_st *table, void *key)
     struct htable_entry *previous = NULL;
     struct htable_entry *entry = table->entries[index];
 
-    if (entry && table->is_equal_f(entry->key, key)) {
+    if (!entry) {
+        return NULL;
+    }
+
+    if (table->is_equal_f(entry->key, key)) {
         value = entry->value;
         table->entries[index] = entry->next;
         DeleteEntry(table, entry);
-- 
2.43.0


From ff7c3ca773f11c7369f40a37412abf99de3b39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 06/68] fix: a cleared hash table has no elements

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 56dd1ea..3d07679 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -210,6 +210,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From be0f5b9e4f4530dc29754f9a0d91fe1022ab11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 07/68] fix: token substitution in a null string or with an
 empty token

---
 palm/src/str.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..c12e865 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -562,9 +562,17 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL) {
+        return NULL;
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
+    if (tlen == 0) {
+        /* An empty token never occurs */
+        return STRcpy(str);
+    }
     slen = STRlen(subst);
     found = strstr(str, token);
 
-- 
2.43.0


From c8cef6cb1b1d844d685fee1b90fe1ede27b7c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 08/68] fix: concatenating empty strings gives an empty string

---
 palm/src/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index c12e865..9715710 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -166,6 +166,7 @@ char *STRcatn(int n, ...)
     int length;
     char *result;
     const char *ptr;
+    bool all_null = true;
     va_list arg_list;
 
     DBUG_ASSERTF(n > 2, "STRcatn called with %d arguments", n);
@@ -178,12 +179,13 @@ char *STRcatn(int n, ...)
         ptr = va_arg(arg_list, const char *);
         if (ptr != NULL) {
             length += STRlen(ptr);
+            all_null = false;
         }
     }
 
     va_end(arg_list);
 
-    if (length == 0) {
+    if (all_null) {
         result = NULL;
     } else {
         result = (char *)MEMmalloc(length + 1);
-- 
2.43.0


From 5cec539e76e432d7cd12aa18c3f8c84b20af53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 09/68] fix: release the tokenizer copy after the last token

---
 palm/src/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 9715710..fc7e29b 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -455,6 +455,7 @@ char *STRtok(const char *first, const char *sep)
     }
 
     if (current == NULL) {
+        keep_string = MEMfree(keep_string);
         ret = NULL;
     } else {
         i = 0;
-- 
2.43.0


From fb8fd8e28298de9802c755a966a02eb63cb02805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 10/68] fix: print the name of a duplicate pass function

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From 42467550033fe66304b9985743d177151eb71050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 11/68] fix: report a missing root node or start phase

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..84968d4 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -50,6 +50,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No start phase is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 790d1801425e63ee0f1b75db9c64dd0ff80fd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 12/68] fix: reject references to something else than an action
 in a phase

---
 cocogen/frontend/check_existance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 84968d4..6be5598 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -68,6 +68,10 @@ node_st *CEXiactions(node_st *node)
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
     if (ref == NULL) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
+    } else if (NODE_TYPE(ref) != NT_IPHASE && NODE_TYPE(ref) != NT_IPASS && NODE_TYPE(ref) != NT_ITRAVERSAL) {
+        struct ctinfo info;
+        id_to_info(IACTIONS_REFERENCE(node), &info);
+        CTIobj(CTI_ERROR, true, info, "Reference is not an action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
 }
-- 
2.43.0


From 62554185c0e1e0f502f7c7ad4955f29be01792ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 13/68] fix: generate the id of an action that is referenced by
 its uid

---
 cocogen/phase_driver/gen_ids_table.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cocogen/phase_driver/gen_ids_table.c b/cocogen/phase_driver/gen_ids_table.c
index 0f1b20c..bdfe7b2 100644
--- a/cocogen/phase_driver/gen_ids_table.c
+++ b/cocogen/phase_driver/gen_ids_table.c
@@ -4,6 +4,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "globals.h"
+#include "frontend/symboltable.h"
 
 static node_st *ast;
 
@@ -32,7 +33,17 @@ node_st *GITast(node_st *node)
 node_st *GITiactions(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    OUT("%s_%s, ", enum_action_pref, ID_UPR(IACTIONS_REFERENCE(node)));
+    // Actions can also be referenced by their uid.
+    node_st *action = STlookup(AST_STABLE(ast), IACTIONS_REFERENCE(node));
+    node_st *name = NULL;
+    if (NODE_TYPE(action) == NT_IPHASE) {
+        name = IPHASE_NAME(action);
+    } else if (NODE_TYPE(action) == NT_IPASS) {
+        name = IPASS_NAME(action);
+    } else {
+        name = ITRAVERSAL_NAME(action);
+    }
+    OUT("%s_%s, ", enum_action_pref, ID_UPR(name));
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From ae00d7708f83be468ce0347551520829e25da8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 14/68] fix: check every attribute of a node or nodeset, not
 only the first

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 37de79651c008bd797381ae7420f329db1733af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 15/68] fix: declare the specified function of a pass

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..e5c17ea 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -5,6 +5,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "globals.h"
+#include "palm/memory.h"
 #include "dynamic_backend/gen_helpers.h"
 #include "../gen_helpers.h"
 
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From e6f9b2a07e302e3ac860aadae8254bf7e0d4d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 16/68] fix: refer to an enum by the spelling of its definition

---
 cocogen/frontend/check_existance.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 6be5598..22602bc 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -7,6 +7,7 @@
 #include "globals.h"
 #include "palm/ctinfo.h"
 #include "palm/str.h"
+#include "palm/memory.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
@@ -45,6 +46,13 @@ void checkUID(node_st *id)
     }
 }
 
+/* References are case-insensitive, but a C enum only exists in the spelling of its definition. */
+static void useDefinedSpelling(node_st *reference, node_st *name)
+{
+    MEMfree(ID_ORIG(reference));
+    ID_ORIG(reference) = STRcpy(ID_ORIG(name));
+}
+
 node_st *CEXast(node_st *node)
 {
     root = node;
@@ -124,6 +132,7 @@ node_st  *CEXitravdata(node_st *node)
                 ITRAVDATA_TYPE(node) = AT_link;
             } else if (NODE_TYPE(ste_entry) == NT_IENUM) {
                 ITRAVDATA_TYPE(node) = AT_link_or_enum;
+                useDefinedSpelling(ITRAVDATA_TYPE_REFERENCE(node), IENUM_NAME(ste_entry));
             } else {
                 CTI(CTI_ERROR, true, "Invalid type in travdata entry.");
             }
@@ -274,6 +283,7 @@ node_st *CEXattribute(node_st *node)
                 ATTRIBUTE_TYPE(node) = AT_link;
             } else if (NODE_TYPE(ste_entry) == NT_IENUM) {
                 ATTRIBUTE_TYPE(node) = AT_link_or_enum;
+                useDefinedSpelling(ATTRIBUTE_TYPE_REFERENCE(node), IENUM_NAME(ste_entry));
             } else {
                 CTI(CTI_ERROR, true, "Invalid type in attribute type: %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)));
             }
-- 
2.43.0


From 78a8b7f52c3953778cd8d89bc6f3433ad1330710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 17/68] fix: compare types of redeclared attributes regardless
 of case

---
 cocogen/frontend/nodesets/propagate_attributes.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..43a4900 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -26,8 +26,12 @@ static inline bool compare_attribute_types(node_st *a, node_st *b) {
         return false;
     }
 
-    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
-        ATTRIBUTE_TYPE(a) == AT_user) {
+    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum) {
+        return STReq(ID_LWR(ATTRIBUTE_TYPE_REFERENCE(a)),
+                     ID_LWR(ATTRIBUTE_TYPE_REFERENCE(b)));
+    }
+
+    if (ATTRIBUTE_TYPE(a) == AT_user) {
         return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                      ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
     }
@@ -54,7 +58,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -63,7 +67,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From f1d052313695529cb0ad6ecf2c4096489a1e7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 18/68] fix: keep the info of a traversal with data for all
 nodes

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index a805eca..c298d14 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -455,6 +455,7 @@ traversal: T_TRAVERSAL id[name] '{' info[information] ',' mandatory_uid[identifi
     {
            $$ = ASTitraversal($name);
            ITRAVERSAL_INDEX($$) = trav_index++;
+           ITRAVERSAL_IINFO($$) = $information;
            ITRAVERSAL_IPREFIX($$) = $identifier;
            ITRAVERSAL_DATA($$) = $data;
     }
-- 
2.43.0


From f21a2ae7bf3f747d572c8824ffd841ebcccc342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 19/68] fix: report circular phases instead of recursing
 endlessly

---
 cocogen/frontend/check_existance.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 22602bc..0d1f627 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -53,6 +53,32 @@ static void useDefinedSpelling(node_st *reference, node_st *name)
     ID_ORIG(reference) = STRcpy(ID_ORIG(name));
 }
 
+struct phase_path {
+    node_st *phase;
+    struct phase_path *prev;
+};
+
+/* A phase that contains itself would never end. */
+static void checkCircularPhase(node_st *phase, struct phase_path *prev)
+{
+    for (struct phase_path *curr = prev; curr != NULL; curr = curr->prev) {
+        if (curr->phase == phase) {
+            struct ctinfo info;
+            id_to_info(IPHASE_NAME(phase), &info);
+            CTIobj(CTI_ERROR, true, info, "Phase contains itself: %s\n", ID_ORIG(IPHASE_NAME(phase)));
+            return;
+        }
+    }
+
+    struct phase_path path = {.phase = phase, .prev = prev};
+    for (node_st *curr = IPHASE_IACTIONS(phase); curr != NULL; curr = IACTIONS_NEXT(curr)) {
+        node_st *action = STlookup(ste, IACTIONS_REFERENCE(curr));
+        if (NODE_TYPE(action) == NT_IPHASE) {
+            checkCircularPhase(action, &path);
+        }
+    }
+}
+
 node_st *CEXast(node_st *node)
 {
     root = node;
@@ -65,6 +91,8 @@ node_st *CEXast(node_st *node)
         CTI(CTI_ERROR, true, "No start phase is defined.");
     }
     CTIabortOnError();
+    checkCircularPhase(AST_START_PHASE(node), NULL);
+    CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
     return node;
-- 
2.43.0


From b64e89a22970ec5623aca70d7e51ea0b4fca547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 20/68] fix: reject duplicate values of an enum

---
 cocogen/frontend/check_existance.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 0d1f627..f2c4a2d 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -364,6 +364,15 @@ node_st *CEXienum(node_st *node)
     } else {
         enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);
     }
+    for (node_st *value = IENUM_VALS(node); value != NULL; value = ID_NEXT(value)) {
+        for (node_st *other = ID_NEXT(value); other != NULL; other = ID_NEXT(other)) {
+            if (STReq(ID_ORIG(value), ID_ORIG(other))) {
+                struct ctinfo info;
+                id_to_info(other, &info);
+                CTIobj(CTI_ERROR, true, info, "Double declaration of enum value: %s\n", ID_ORIG(other));
+            }
+        }
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 8aa3c3e1773c2fcaec5486dcceaea85392c91622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 21/68] fix: reject duplicate product rules and arguments

---
 cocogen/frontend/check_product_rules.c | 38 ++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index cbd9a20..b11a75f 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -4,7 +4,6 @@
  * Traversal: checkProductRules
  * UID      : CPR
  *
- * TODO: prevent duplicate production rules / args
  */
 
 #include <assert.h>
@@ -220,6 +219,26 @@ static void check_product_rule(node_st *equations, node_st *node_name,
     }
 }
 
+static bool is_same_reference(node_st *a, node_st *b) {
+    node_st *a_node = ATTRIBUTE_REFERENCE_INODE(a);
+    node_st *b_node = ATTRIBUTE_REFERENCE_INODE(b);
+    if ((a_node == NULL) != (b_node == NULL)) {
+        return false;
+    }
+
+    return (a_node == NULL || STReq(ID_LWR(a_node), ID_LWR(b_node))) &&
+           STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(a)),
+                 ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(b)));
+}
+
+static void duplicate_error(node_st *reference, char *what) {
+    struct ctinfo info;
+    id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference), &info);
+    CTIobj(CTI_ERROR, true, info, "Duplicate %s in node '%s'\n", what,
+           ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)));
+    CCNerrorAction();
+}
+
 /**
  * @fn CPRast
  */
@@ -246,6 +265,13 @@ node_st *CPRinode(node_st *node) {
  */
 node_st *CPRequation(node_st *node) {
     check_attribute_reference(EQUATION_RULE(node), true);
+    for (node_st *eq = EQUATION_NEXT(node); eq != NULL;
+         eq = EQUATION_NEXT(eq)) {
+        if (is_same_reference(EQUATION_RULE(node), EQUATION_RULE(eq))) {
+            duplicate_error(EQUATION_RULE(eq), "product rule");
+            break;
+        }
+    }
     TRAViargs(node);
     TRAVnext(node);
     return node;
@@ -255,7 +281,15 @@ node_st *CPRequation(node_st *node) {
  * @fn CPRequation
  */
 node_st *CPRequation_dependency(node_st *node) {
-    check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), false);
+    node_st *reference = EQUATION_DEPENDENCY_IATTRIBUTE(node);
+    check_attribute_reference(reference, false);
+    for (node_st *dep = EQUATION_DEPENDENCY_NEXT(node); dep != NULL;
+         dep = EQUATION_DEPENDENCY_NEXT(dep)) {
+        if (is_same_reference(reference, EQUATION_DEPENDENCY_IATTRIBUTE(dep))) {
+            duplicate_error(EQUATION_DEPENDENCY_IATTRIBUTE(dep), "argument");
+            break;
+        }
+    }
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 26556bf3c64b2d9d7e8da87b706b081413a2d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 22/68] fix: generate child traversal functions in lower case
 as documented

---
 cocogen/dynamic_backend/gen_traversal_functions.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_traversal_functions.c b/cocogen/dynamic_backend/gen_traversal_functions.c
index 0dae9be..8d47d5f 100644
--- a/cocogen/dynamic_backend/gen_traversal_functions.c
+++ b/cocogen/dynamic_backend/gen_traversal_functions.c
@@ -94,13 +94,13 @@ node_st *DGT_Finode(node_st *node)
 node_st *DGT_Fchild(node_st *node)
 {
     struct data_dgt_f *data = DATA_DGT_F_GET();
-    node_st *entry = HTlookup(lookup, ID_ORIG(CHILD_NAME(node)));
+    node_st *entry = HTlookup(lookup, ID_LWR(CHILD_NAME(node)));
     node_st *node_name = CCNcopy(INODE_NAME(data->curr_node));
     if (entry == NULL) {
-        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);
+        HTinsert(lookup, ID_LWR(CHILD_NAME(node)), node_name);
     } else {
         ID_NEXT(node_name) = entry;
-        HTinsert(lookup, ID_ORIG(CHILD_NAME(node)), node_name);
+        HTinsert(lookup, ID_LWR(CHILD_NAME(node)), node_name);
     }
 
     TRAVnext(node);
-- 
2.43.0


From f5f35a157043a95a8253ee00f42a99193bec84dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 23/68] fix: print an '@' in a message instead of breaking the
 line there

---
 palm/src/ctinfo.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6812dff..a445e2c 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -32,7 +32,7 @@ static int warnings = 0;
  *
  *   @brief  formats message according to line length
  *
- *           '@' characters are inserted into the buffer to represent line
+ *           Newline characters are inserted into the buffer to represent line
  *           breaks.
  *
  *   @param buffer  message buffer
@@ -57,12 +57,11 @@ static void ProcessMessage(char *buffer, int line_length)
         }
 
         if (buffer[index] == '\n') {
-            buffer[index] = '@';
             column = 0;
         } else {
             if (column == line_length) {
                 if (buffer[last_space] == ' ') {
-                    buffer[last_space] = '@';
+                    buffer[last_space] = '\n';
                     column = index - last_space;
                 } else {
                     break;
@@ -152,7 +151,7 @@ char *CTIgetErrorMessageVA(int line, const char *format, va_list arg_p)
     ProcessMessage(message_buffer,
         message_line_length - strlen(error_message_header));
 
-    first_line = STRfmt("line %d @", line);
+    first_line = STRfmt("line %d \n", line);
     res = STRcat(first_line, message_buffer);
     first_line = MEMfree(first_line);
 
@@ -248,12 +247,12 @@ static void PrintMessage(char *header, const char *format, va_list arg_p, bool n
 
     ProcessMessage(message_buffer, message_line_length - strlen(header));
 
-    line = strtok(message_buffer, "@");
+    line = strtok(message_buffer, "\n");
 
     while (line != NULL) {
         fprintf(stderr, "%s%s\n", header, line);
         header = "";
-        line = strtok(NULL, "@");
+        line = strtok(NULL, "\n");
     }
 
     PrintInfo(info);
-- 
2.43.0


From 095ae4976cae6f7e58d9ae42f9409a2269defeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 24/68] fix: do not display values of a location that are 0 or
 NULL

---
 palm/src/ctinfo.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index a445e2c..74d5498 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -184,23 +184,34 @@ static void PrintLocation(struct ctinfo *info)
     }
 }
 
+static void PrintFile(struct ctinfo *info)
+{
+    fprintf(stderr, " --> ");
+    if (info->filename != NULL) {
+        fprintf(stderr, "%s:", info->filename);
+    }
+}
+
 static void PrintLine(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d\n", info->filename, info->first_line);
+    PrintFile(info);
+    fprintf(stderr, "%d\n", info->first_line);
 }
 
 static void PrintLineCol(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d:%d\n", info->filename, info->first_line, info->first_column);
+    PrintFile(info);
+    fprintf(stderr, "%d:%d\n", info->first_line, info->first_column);
     PrintLocation(info);
 }
 
 static void PrintRange(struct ctinfo *info)
 {
+    PrintFile(info);
     if (info->last_line == 0 || info->first_line == info->last_line) {
-        fprintf(stderr, " --> %s:%d.%d-%d\n", info->filename, info->first_line, info->first_column, info->last_column);
+        fprintf(stderr, "%d.%d-%d\n", info->first_line, info->first_column, info->last_column);
     } else {
-        fprintf(stderr, " --> %s:%d.%d-%d.%d\n", info->filename, info->first_line, info->first_column, info->last_line, info->last_column);
+        fprintf(stderr, "%d.%d-%d.%d\n", info->first_line, info->first_column, info->last_line, info->last_column);
     }
     PrintLocation(info);
 }
@@ -211,7 +222,12 @@ static void PrintInfo(struct ctinfo *info)
         return;
     }
 
-    if (info->first_line > 0 && info->first_column <= 0) {
+    if (info->first_line <= 0) {
+        // The place in the file is not known.
+        if (info->filename != NULL) {
+            fprintf(stderr, " --> %s\n", info->filename);
+        }
+    } else if (info->first_column <= 0) {
         PrintLine(info);
     } else if (info->last_column <= 0 || ((info->last_line <= 0 || info->first_line == info->last_line) && info->first_column == info->last_column)) {
         PrintLineCol(info);
-- 
2.43.0


From f6efbf101a33e938709a46dbdb9e4f9b9eddee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 25/68] fix: taking the rest of a string with a large length

---
 palm/src/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index fc7e29b..4f95530 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -87,7 +87,7 @@ char *STRsubStr(const char *string, int start, int len)
         len = strlen + len; /* + - => - */
     }
 
-    if ((start + len) > strlen) { /* to long take what we can */
+    if (len > strlen - start) { /* to long take what we can */
         len = strlen - start;
     }
 
-- 
2.43.0


From e22f0c553947f32b09aefd3b7f38df745ef8ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 26/68] fix: evaluate only the expression of a referenced
 nodeset

Evaluating a nodeset that another one refers to also walked to the nodesets
after it, so an expression that was being evaluated could be evaluated and
freed a second time, depending on the order of definitions.
---
 cocogen/frontend/unwrap_setexpr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index db11363..c039b5f 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -9,6 +9,7 @@
 #include "assert.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
+#include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
 #include "sets/set.h"
 #include "frontend/symboltable.h"
@@ -61,7 +62,7 @@ node_st *USEsetreference(node_st *node)
     node_st *nodeset = STlookup(ste, SETREFERENCE_REFERENCE(node));
     assert(nodeset && NODE_TYPE(nodeset) == NT_INODESET);
     if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {
-        TRAVchildren(nodeset);
+        TRAVexpr(nodeset);
     }
     if (INODESET_EXPR(nodeset)) {
         assert(NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL);
-- 
2.43.0


From 7d6be0f717ff236d98f3e96136785c50b469b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 27/68] fix: accept nodes with lifetimes but no children or
 attributes

The documentation makes every block of a node optional.
---
 cocogen/frontend/scanAndParse/dsl-parser.y | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index c298d14..93f148a 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -690,10 +690,18 @@ node: is_root[root] T_NODE id[name] '{'  childrenbody[children] ',' attributebod
         INODE_IS_ROOT($$) = $root;
         INODE_IEQUATIONS($$) = $equations;
     }
-    | is_root[root] T_NODE id[name] '{' '}'
+    | is_root[root] T_NODE id[name] '{' equationbody[equations] ',' nodelifetimes[lifetimes] '}'
     {
         $$ = ASTinode($name, NULL);
         INODE_IS_ROOT($$) = $root;
+        INODE_IEQUATIONS($$) = $equations;
+        INODE_LIFETIMES($$) = $lifetimes;
+    }
+    | is_root[root] T_NODE id[name] '{' nodelifetimes[lifetimes] '}'
+    {
+        $$ = ASTinode($name, NULL);
+        INODE_IS_ROOT($$) = $root;
+        INODE_LIFETIMES($$) = $lifetimes;
     }
     ;
 
-- 
2.43.0


From 480837e51d573734709d1489b2040a2664bab958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 28/68] fix: name of user-typed constructor parameters with
 capitals

The parameter was in lower case but the constructor used the original name.
---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 46ef2c2..5a6fb11 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -73,7 +73,7 @@ node_st *DGIFattribute(node_st *node)
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
             OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
             OUT("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), DGHattributeField(node));
         }
-- 
2.43.0


From 41b5e67f9cd790c8a05ae2b9257141ec67eaaaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 29/68] fix: accept children of a nodeset without members

---
 cocogen/frontend/attribute_scheduler/collect_visits.c  |  4 ++--
 .../attribute_scheduler/schedule_attribute_visits.c    | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/collect_visits.c b/cocogen/frontend/attribute_scheduler/collect_visits.c
index 10af47e..9ba1331 100644
--- a/cocogen/frontend/attribute_scheduler/collect_visits.c
+++ b/cocogen/frontend/attribute_scheduler/collect_visits.c
@@ -51,8 +51,8 @@ struct visits *collect_visits(graph_st *graph, node_st *node, node_st *st,
     struct visits *visits = MEMmalloc(sizeof(struct visits));
     visits->visits = NULL;
     visits->length = 0;
-    for (struct GRnode *gnode = graph->nodes; gnode != NULL;
-         gnode = gnode->next) {
+    for (struct GRnode *gnode = graph == NULL ? NULL : graph->nodes;
+         gnode != NULL; gnode = gnode->next) {
         if (gnode->node != node) {
             continue;
         }
diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 46e859d..a61ae24 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -607,11 +607,11 @@ node_st *SAVast(node_st *node) {
     for (node_st *nodeset = AST_INODESETS(node); nodeset != NULL;
          nodeset = INODESET_NEXT(nodeset)) {
         struct graph_list *graph = HTlookup(graphs_htable, nodeset);
-        if (graph == NULL) { // Empty nodeset
-            continue;
-        }
-        struct visits *visits = collect_visits(
-            graph->graph, nodeset, AST_STABLE(node), partition_tables);
+        // Empty nodesets have no graph, but children can refer to them, so they
+        // need (an empty list of) visits
+        struct visits *visits =
+            collect_visits(graph == NULL ? NULL : graph->graph, nodeset,
+                           AST_STABLE(node), partition_tables);
 
         HTinsert(visits_htable, nodeset, visits);
     }
-- 
2.43.0


From 13e3474f2fabdcb7ff12aa0d4d01ff23c4c2eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 30/68] fix: reject members with inherited attributes their
 nodeset lacks

---
 cocogen/frontend/check_product_rules.c | 52 ++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index b11a75f..f8df46f 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -239,11 +239,60 @@ static void duplicate_error(node_st *reference, char *what) {
     CCNerrorAction();
 }
 
+static bool has_inherited_attribute(node_st *attributes) {
+    for (; attributes != NULL; attributes = ATTRIBUTE_NEXT(attributes)) {
+        if (ATTRIBUTE_IS_INHERITED(attributes)) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+/* The parent of a child with a nodeset type can only give values to inherited
+   attributes of that nodeset, so members cannot have additional ones. */
+static void check_additional_inherited(node_st *nodeset, node_st *expr) {
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    node_st *member =
+        STlookup(DATA_CPR_GET()->symboltable, SETLITERAL_REFERENCE(expr));
+    assert(member != NULL && NODE_TYPE(member) == NT_INODE);
+
+    for (node_st *attribute = INODE_IATTRIBUTES(member); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute) &&
+            find_attribute(nodeset, INODESET_IATTRIBUTES(nodeset),
+                           ATTRIBUTE_NAME(attribute)) == NULL) {
+            struct ctinfo info;
+            id_to_info(ATTRIBUTE_NAME(attribute), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Inherited attribute '%s' of node '%s' is not an attribute "
+                   "of nodeset '%s', which contains the node\n",
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)),
+                   ID_ORIG(INODE_NAME(member)),
+                   ID_ORIG(INODESET_NAME(nodeset)));
+            CCNerrorAction();
+        }
+    }
+
+    check_additional_inherited(nodeset, SETLITERAL_LEFT(expr));
+    check_additional_inherited(nodeset, SETLITERAL_RIGHT(expr));
+}
+
 /**
  * @fn CPRast
  */
 node_st *CPRast(node_st *node) {
     DATA_CPR_GET()->symboltable = AST_STABLE(node);
+    for (node_st *nodeset = AST_INODESETS(node); nodeset != NULL;
+         nodeset = INODESET_NEXT(nodeset)) {
+        if (has_inherited_attribute(INODESET_IATTRIBUTES(nodeset))) {
+            check_additional_inherited(nodeset, INODESET_EXPR(nodeset));
+        }
+    }
     TRAVinodes(node);
     return node;
 }
@@ -320,6 +369,9 @@ node_st *CPRchild(node_st *node) {
     } else {
         assert(NODE_TYPE(ref_node) == NT_INODESET);
         attributes = INODESET_IATTRIBUTES(ref_node);
+        if (!has_inherited_attribute(attributes)) {
+            check_additional_inherited(ref_node, INODESET_EXPR(ref_node));
+        }
     }
 
     for (node_st *attribute = attributes; attribute != NULL;
-- 
2.43.0


From 4de8592b0c2ca4e9ddfa16086c8f7f4b69baa454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 31/68] fix: reject traversals whose set of nodes is empty

---
 cocogen/frontend/unwrap_setexpr.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index c039b5f..7796093 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -7,11 +7,14 @@
 
 #include <stddef.h>
 #include "assert.h"
+#include "ccn/ccn.h"
+#include "palm/ctinfo.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
 #include "sets/set.h"
+#include "frontend/ctihelp.h"
 #include "frontend/symboltable.h"
 
 static node_st *ste;
@@ -19,6 +22,22 @@ static node_st *ste;
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
+    for (node_st *trav = AST_ITRAVERSALS(node); trav != NULL;
+         trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            continue;
+        }
+        TRAVinodes(trav);
+        // Without nodes the traversal would target all of them.
+        if (ITRAVERSAL_INODES(trav) == NULL) {
+            struct ctinfo info;
+            id_to_info(ITRAVERSAL_NAME(trav), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Set of nodes of traversal '%s' is empty\n",
+                   ID_ORIG(ITRAVERSAL_NAME(trav)));
+            CCNerrorAction();
+        }
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 8353d3f581933cd1bd26ac57925686fa98861c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 32/68] fix: free synthesized and inherited strings of a node

---
 cocogen/dynamic_backend/gen_free_traversal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ae3b5d8..31f6357 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -91,7 +91,13 @@ node_st *DGFTattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_string) {
-        OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
+            OUT_BEGIN_IF("arg_node->data.N_%s->_%s.ccn_val_set", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT_FIELD("MEMfree(arg_node->data.N_%s->_%s.%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT_END_IF();
+        } else {
+            OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        }
     }
     TRAVnext(node);
     return node;
-- 
2.43.0


From eaf23c98637e7255c77a37f26b5506cd1f6bcab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 33/68] fix: visit children of nodesets whose first member
 needs no visit

---
 .../attribute_scheduler/generate_visits.c     | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index b407020..42bfb29 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -371,9 +371,27 @@ add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
                                  htable_st *visit_stubs_htable, node_st *expr,
                                  node_st *child, struct visit *original_visit) {
     node_st *visit_tail = NULL;
-    return add_visit_sequence_visit_nodeset_rec(&visit_tail, st, visits_htable,
-                                                visit_stubs_htable, expr, child,
-                                                original_visit);
+    node_st *sequence = add_visit_sequence_visit_nodeset_rec(
+        &visit_tail, st, visits_htable, visit_stubs_htable, expr, child,
+        original_visit);
+
+    // Only visits can be part of a visit sequence, so the first alternative
+    // has to be one
+    node_st *last_dummy = NULL;
+    node_st *visit = sequence;
+    while (visit != NULL && NODE_TYPE(visit) == NT_VISIT_SEQUENCE_DUMMY) {
+        last_dummy = visit;
+        visit = VISIT_SEQUENCE_DUMMY_ALT(visit);
+    }
+
+    if (visit == NULL) { // There is nothing to visit
+        CCNfree(sequence);
+    } else if (last_dummy != NULL) {
+        VISIT_SEQUENCE_DUMMY_ALT(last_dummy) = VISIT_SEQUENCE_VISIT_ALT(visit);
+        VISIT_SEQUENCE_VISIT_ALT(visit) = sequence;
+    }
+
+    return visit;
 }
 
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
-- 
2.43.0


From 8c18b324cc436f058933e107af2a71ffcc22017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:36 +0000
Subject: [PATCH 34/68] fix: set inherited attributes when they are evaluated,
 not when visited

---
 cocogen/dynamic_backend/gen_visit_source.c | 68 +++++++++++++++++++---
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..0aa44a9 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -214,6 +214,55 @@ static inline node_st *get_child(node_st *child_name) {
     return NULL;
 }
 
+static void print_set_child_value_member(node_st *member, node_st *child,
+                                         node_st *attribute, char *value) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    char *data = STRfmt("%s_%s(node)->data.N_%s->_%s",
+                        ID_UPR(INODE_NAME(curr_node)),
+                        ID_UPR(CHILD_NAME(child)), ID_LWR(INODE_NAME(member)),
+                        ID_LWR(ATTRIBUTE_NAME(attribute)));
+    OUT_BEGIN_IF("NODE_TYPE(%s_%s(node)) == NT_%s",
+                 ID_UPR(INODE_NAME(curr_node)), ID_UPR(CHILD_NAME(child)),
+                 ID_UPR(INODE_NAME(member)));
+    OUT("%s.ccn_val_set = true;\n", data);
+    OUT("%s.%s = %s;\n", data, ID_LWR(ATTRIBUTE_NAME(attribute)), value);
+    OUT_END_IF();
+    MEMfree(data);
+}
+
+static void print_set_child_value_nodeset(node_st *expr, node_st *child,
+                                          node_st *attribute, char *value) {
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    print_set_child_value_member(STlookup(ste, SETLITERAL_REFERENCE(expr)),
+                                 child, attribute, value);
+    print_set_child_value_nodeset(SETLITERAL_LEFT(expr), child, attribute,
+                                  value);
+    print_set_child_value_nodeset(SETLITERAL_RIGHT(expr), child, attribute,
+                                  value);
+}
+
+/* Sets an inherited attribute of a child, so other equations of the current
+   node and later visits can use it. */
+static inline void print_set_child_value(node_st *child, node_st *attribute,
+                                         char *value) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+    OUT_BEGIN_IF("%s_%s(node) != NULL", ID_UPR(INODE_NAME(curr_node)),
+                 ID_UPR(CHILD_NAME(child)));
+    if (NODE_TYPE(type) == NT_INODE) {
+        print_set_child_value_member(type, child, attribute, value);
+    } else {
+        print_set_child_value_nodeset(INODESET_EXPR(type), child, attribute,
+                                      value);
+    }
+    OUT_END_IF();
+    OUT_NO_INDENT("\n");
+}
+
 static inline void print_equation_args(node_st *equation,
                                        htable_st *children_null) {
     GeneratorContext *ctx = globals.gen_ctx;
@@ -368,17 +417,19 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
         }
     }
 
+    char *arg_str = STRfmt("%s_%s", get_node_name_this(attribute),
+                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
     if (ATTRIBUTE_REFERENCE_INODE(attribute) ==
         NULL) { // attribute of current node
         assert(
             ATTRIBUTE_IS_SYNTHESIZED(ATTRIBUTE_REFERENCE_REFERENCE(attribute)));
-        char *arg_str =
-            STRfmt("%s_%s", get_node_name_this(attribute),
-                   ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
-
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
-        MEMfree(arg_str);
+    } else {
+        print_set_child_value(get_child(ATTRIBUTE_REFERENCE_INODE(attribute)),
+                              ATTRIBUTE_REFERENCE_REFERENCE(attribute),
+                              arg_str);
     }
+    MEMfree(arg_str);
 
     HTdelete(children_null);
     destroy_child_list(children);
@@ -457,9 +508,10 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        // The attribute might have been evaluated in an earlier visit
+        OUT_NO_INDENT(", %s_%s(%s)", ID_UPR(INODE_NAME(VISIT_INODE(visit))),
+                      ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+                      child_access);
     }
 
     OUT_NO_INDENT(");\n");
-- 
2.43.0


From 421870c9c0d5beaed1e439a655cbc47bfe8ac3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 35/68] fix: visit several mandatory children of a type with
 multiple outputs

---
 cocogen/dynamic_backend/gen_visit_source.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 0aa44a9..15705b6 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -495,7 +495,8 @@ static void print_visit_call(node_st *node, node_st *outputs,
             }
         } else { // multiple output
             multiple_outputs = true;
-            OUT("struct %s_out %s_output", visit_name, visit_name);
+            OUT("struct %s_out %s_%s_output", visit_name, visit_name,
+                ID_LWR(CHILD_NAME(child)));
             print_unused();
             OUT_NO_INDENT(" = ");
         }
@@ -528,10 +529,11 @@ static void print_visit_call(node_st *node, node_st *outputs,
                 print_type(ATTRIBUTE_REFERENCE_REFERENCE(attribute));
                 OUT_NO_INDENT(" ");
             }
-            OUT_NO_INDENT("%s_%s = %s_output.%s_%s;\n",
+            OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
                           ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
-                          visit_name, get_node_name_this(attribute),
+                          visit_name, ID_LWR(CHILD_NAME(child)),
+                          get_node_name_this(attribute),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
         }
     }
-- 
2.43.0


From 8b611ac4990fab942246cb4ebb364b89c1d9ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:28 +0000
Subject: [PATCH 36/68] fix: visit members of a nodeset as often as their own
 visits require

---
 cocogen/dynamic_backend/gen_visit_source.c    |  29 +--
 .../attribute_scheduler/generate_visits.c     | 177 ++++++++++++------
 2 files changed, 139 insertions(+), 67 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 15705b6..7faf1e7 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -440,7 +440,6 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
-    assert(NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
     for (node_st *candidate = outputs; candidate;
          candidate = VISIT_ARG_LIST_NEXT(candidate)) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
@@ -554,6 +553,12 @@ static inline node_st *get_alt(node_st *visit) {
     }
 }
 
+static inline bool is_same_member(node_st *visit, node_st *alt) {
+    return alt != NULL && NODE_TYPE(alt) == NT_VISIT_SEQUENCE_VISIT &&
+           VISIT_INODE(VISIT_SEQUENCE_VISIT_VISIT(visit)) ==
+               VISIT_INODE(VISIT_SEQUENCE_VISIT_VISIT(alt));
+}
+
 /**
  * @fn DGVSvisit_sequence_visit
  */
@@ -567,8 +572,12 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
     char *child_access = NULL;
 
     if (VISIT_SEQUENCE_VISIT_ALT(node) || !CHILD_IS_MANDATORY(child)) {
-        // Declare output arguments
-        for (node_st *out_arg = VISIT_OUTPUTS(visit); out_arg;
+        /* Declare output arguments. The outputs of a nodeset visit differ per
+           member and are only accessed through the member. */
+        for (node_st *out_arg = VISIT_SEQUENCE_VISIT_ALT(node)
+                                    ? NULL
+                                    : VISIT_OUTPUTS(visit);
+             out_arg;
              out_arg = VISIT_ARG_LIST_NEXT(out_arg)) {
             node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(out_arg);
             OUT("");
@@ -588,13 +597,6 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
     }
 
     if (VISIT_SEQUENCE_VISIT_ALT(node)) { // Visit type is a nodeset
-        /* At this point we do not know what the actual nodeset visit outputs
-           were, so instead we simply declare the outputs of the first visit.
-           This should at least include all the nodeset visit outputs, and
-           the other variables might be left uninitialized, but should not
-           be accessed later on. For every visit we check which outputs are
-           'desired' by checking if it was declared.*/
-        node_st *outputs = VISIT_OUTPUTS(visit);
         OUT("");
         for (node_st *alt_visit = node; alt_visit;
              alt_visit = get_alt(alt_visit)) {
@@ -603,7 +605,12 @@ node_st *DGVSvisit_sequence_visit(node_st *node) {
                               ID_UPR(INODE_NAME(VISIT_INODE(
                                   VISIT_SEQUENCE_VISIT_VISIT(alt_visit)))));
                 GNindentIncrease(ctx);
-                print_visit_call(alt_visit, outputs, false, true);
+                print_visit_call(alt_visit, NULL, false, true);
+                // A member can require multiple visits
+                while (is_same_member(alt_visit, get_alt(alt_visit))) {
+                    alt_visit = get_alt(alt_visit);
+                    print_visit_call(alt_visit, NULL, false, true);
+                }
                 GNindentDecrease(ctx);
             } else {
                 OUT_NO_INDENT(
diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index 42bfb29..b396e4a 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -316,82 +316,147 @@ static inline void set_alt(node_st *sequence, node_st *alt) {
     }
 }
 
-static node_st *add_visit_sequence_visit_nodeset_rec(
-    node_st **visit_tail, node_st *st, htable_st *visits_htable,
-    htable_st *visit_stubs_htable, node_st *expr, node_st *child,
-    struct visit *original_visit) {
+static inline bool visit_has_attribute(struct GRnode **attributes,
+                                       size_t length, struct GRnode *node) {
+    for (size_t i = 0; i < length; ++i) {
+        if (STReq(ID_LWR(ATTRIBUTE_NAME(attributes[i]->attribute)),
+                  ID_LWR(ATTRIBUTE_NAME(node->attribute)))) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+/* The attributes of a nodeset can be divided over the visits differently than
+   those of its members. Returns how many visits of a member node are done
+   after the nodeset visit with the given index: as many as are needed for the
+   outputs up to that visit, or all of them for the last visit. */
+static size_t count_member_visits(struct visits *nodeset_visits, size_t index,
+                                  struct visits *member_visits) {
+    if (index + 1 == nodeset_visits->length) {
+        return member_visits->length;
+    }
+
+    for (size_t count = member_visits->length; count > 0; --count) {
+        struct visit *member_visit = member_visits->visits[count - 1];
+        for (size_t i = 0; i < member_visit->outputs_length; ++i) {
+            for (size_t j = 0; j <= index; ++j) {
+                struct visit *nodeset_visit = nodeset_visits->visits[j];
+                if (visit_has_attribute(nodeset_visit->outputs,
+                                        nodeset_visit->outputs_length,
+                                        member_visit->outputs[i])) {
+                    return count;
+                }
+            }
+        }
+    }
+
+    return 0;
+}
+
+static void check_member_inputs(struct visits *nodeset_visits, size_t index,
+                                struct visit *member_visit, node_st *nodeset,
+                                node_st *member) {
+    for (size_t i = 0; i < member_visit->inputs_length; ++i) {
+        bool found = false;
+        for (size_t j = 0; j <= index; ++j) {
+            struct visit *nodeset_visit = nodeset_visits->visits[j];
+            found |= visit_has_attribute(nodeset_visit->inputs,
+                                         nodeset_visit->inputs_length,
+                                         member_visit->inputs[i]);
+        }
+
+        if (!found) {
+            struct ctinfo info;
+            id_to_info(INODE_NAME(member), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Could not find an order of visits for node '%s' that is "
+                   "also an order for nodeset '%s': attribute '%s' is needed "
+                   "too early.\n",
+                   ID_ORIG(INODE_NAME(member)), ID_ORIG(INODESET_NAME(nodeset)),
+                   ID_ORIG(ATTRIBUTE_NAME(member_visit->inputs[i]->attribute)));
+            CCNerrorAction();
+        }
+    }
+}
+
+struct alternatives {
+    node_st *head;
+    node_st *tail;
+};
+
+static inline void add_alternative(struct alternatives *alternatives,
+                                   node_st *sequence) {
+    if (alternatives->head == NULL) {
+        alternatives->head = sequence;
+    } else {
+        set_alt(alternatives->tail, sequence);
+    }
+    alternatives->tail = sequence;
+}
+
+static void add_alternatives(struct alternatives *visit_alts,
+                             struct alternatives *dummy_alts, node_st *st,
+                             htable_st *visits_htable,
+                             htable_st *visit_stubs_htable, node_st *expr,
+                             node_st *child, struct visit *original_visit) {
     if (expr == NULL) {
-        return NULL;
+        return;
     }
 
     assert(NODE_TYPE(expr) == NT_SETLITERAL);
 
+    node_st *nodeset = get_node_type(child, st);
     node_st *node = STlookup(st, SETLITERAL_REFERENCE(expr));
+    struct visits *nodeset_visits = HTlookup(visits_htable, nodeset);
     struct visits *visits = HTlookup(visits_htable, node);
-    node_st *sequence = NULL;
-    if (original_visit->index < visits->length) {
-        struct visit *visit = visits->visits[original_visit->index];
-
-        sequence = ASTvisit_sequence_visit(child, NULL);
+    size_t index = original_visit->index;
+    size_t begin = index == 0 ? 0
+                              : count_member_visits(nodeset_visits, index - 1,
+                                                    visits);
+    size_t end = count_member_visits(nodeset_visits, index, visits);
+    for (size_t i = begin; i < end; ++i) {
+        struct visit *visit = visits->visits[i];
+        check_member_inputs(nodeset_visits, index, visit, nodeset, node);
+        node_st *sequence = ASTvisit_sequence_visit(child, NULL);
         add_visit_stub(visit_stubs_htable, visit, sequence);
-    } else {
-        fprintf(log, "Do not add visit %s %lu for type %s\n", ID_LWR(get_node_name(child)), original_visit->index, ID_LWR(get_node_name(node)));
-        sequence = ASTvisit_sequence_dummy(node);
-    }
-
-    node_st *left_tail = NULL;
-    node_st *sequence_left = add_visit_sequence_visit_nodeset_rec(
-        &left_tail, st, visits_htable, visit_stubs_htable,
-        SETLITERAL_LEFT(expr), child, original_visit);
-    set_alt(sequence, sequence_left);
-
-    node_st *right_tail = NULL;
-    node_st *sequence_right = add_visit_sequence_visit_nodeset_rec(
-        &right_tail, st, visits_htable, visit_stubs_htable,
-        SETLITERAL_RIGHT(expr), child, original_visit);
-    if (left_tail != NULL) {
-        set_alt(left_tail, sequence_right);
-    } else {
-        set_alt(sequence, sequence_right);
+        add_alternative(visit_alts, sequence);
     }
 
-    if (right_tail != NULL) {
-        *visit_tail = right_tail;
-    } else if (left_tail != NULL) {
-        *visit_tail = left_tail;
-    } else {
-        *visit_tail = sequence;
+    if (begin == end) {
+        fprintf(log, "Do not add visit %s %lu for type %s\n",
+                ID_LWR(get_node_name(child)), index,
+                ID_LWR(get_node_name(node)));
+        add_alternative(dummy_alts, ASTvisit_sequence_dummy(node));
     }
 
-    return sequence;
+    add_alternatives(visit_alts, dummy_alts, st, visits_htable,
+                     visit_stubs_htable, SETLITERAL_LEFT(expr), child,
+                     original_visit);
+    add_alternatives(visit_alts, dummy_alts, st, visits_htable,
+                     visit_stubs_htable, SETLITERAL_RIGHT(expr), child,
+                     original_visit);
 }
 
+/* Alternative visits for every member of a nodeset, or NULL if there is nothing
+   to visit. If a member has multiple visits, they follow each other. */
 static inline node_st *
 add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
                                  htable_st *visit_stubs_htable, node_st *expr,
                                  node_st *child, struct visit *original_visit) {
-    node_st *visit_tail = NULL;
-    node_st *sequence = add_visit_sequence_visit_nodeset_rec(
-        &visit_tail, st, visits_htable, visit_stubs_htable, expr, child,
-        original_visit);
-
-    // Only visits can be part of a visit sequence, so the first alternative
-    // has to be one
-    node_st *last_dummy = NULL;
-    node_st *visit = sequence;
-    while (visit != NULL && NODE_TYPE(visit) == NT_VISIT_SEQUENCE_DUMMY) {
-        last_dummy = visit;
-        visit = VISIT_SEQUENCE_DUMMY_ALT(visit);
-    }
-
-    if (visit == NULL) { // There is nothing to visit
-        CCNfree(sequence);
-    } else if (last_dummy != NULL) {
-        VISIT_SEQUENCE_DUMMY_ALT(last_dummy) = VISIT_SEQUENCE_VISIT_ALT(visit);
-        VISIT_SEQUENCE_VISIT_ALT(visit) = sequence;
+    // Only visits can be part of a visit sequence, so they come first
+    struct alternatives visits = {NULL, NULL};
+    struct alternatives dummies = {NULL, NULL};
+    add_alternatives(&visits, &dummies, st, visits_htable, visit_stubs_htable,
+                     expr, child, original_visit);
+    if (visits.head == NULL) {
+        CCNfree(dummies.head);
+        return NULL;
     }
 
-    return visit;
+    set_alt(visits.tail, dummies.head);
+    return visits.head;
 }
 
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
-- 
2.43.0


From 9aee586901025d7dfc48d379a8500d51982ca88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:08 +0000
Subject: [PATCH 37/68] fix: report an attribute whose equation depends on
 itself

---
 cocogen/frontend/attribute_scheduler/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..7836a6b 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,7 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From 936f5c65c78d25b2373b0095ef79a5435c61b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:51 +0000
Subject: [PATCH 38/68] fix: reject enum values that differ only in letter case

---
 cocogen/frontend/check_existance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index f2c4a2d..05b0ed6 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -366,7 +366,7 @@ node_st *CEXienum(node_st *node)
     }
     for (node_st *value = IENUM_VALS(node); value != NULL; value = ID_NEXT(value)) {
         for (node_st *other = ID_NEXT(value); other != NULL; other = ID_NEXT(other)) {
-            if (STReq(ID_ORIG(value), ID_ORIG(other))) {
+            if (STReq(ID_LWR(value), ID_LWR(other))) {
                 struct ctinfo info;
                 id_to_info(other, &info);
                 CTIobj(CTI_ERROR, true, info, "Double declaration of enum value: %s\n", ID_ORIG(other));
-- 
2.43.0


From a0be71102b36a54c8b1a5d0f94481ad1b55a1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:29 +0000
Subject: [PATCH 39/68] fix: report circular phases that are never run

---
 cocogen/frontend/check_existance.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 05b0ed6..e94618f 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -91,7 +91,9 @@ node_st *CEXast(node_st *node)
         CTI(CTI_ERROR, true, "No start phase is defined.");
     }
     CTIabortOnError();
-    checkCircularPhase(AST_START_PHASE(node), NULL);
+    for (node_st *phase = AST_IPHASES(node); phase != NULL; phase = IPHASE_NEXT(phase)) {
+        checkCircularPhase(phase, NULL);
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 6bcd9a5ef51dab21073a471d377c56c9461828c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:29 +0000
Subject: [PATCH 40/68] fix: keywords and arrows among the values of an enum

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 587c13d..adc879b 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -112,7 +112,7 @@ static inline void check_c_keyword(const char *);
 "children"      { LEX_KEYWORD(T_CHILDREN);}
 "constructor"   { LEX_KEYWORD(T_CONSTRUCTOR);}
 "cycle"         { LEX_KEYWORD(T_CYCLE);}
-"enum"          { in_enum = true; LEX_KEYWORD(T_ENUM);}
+"enum"          { if (yy_lex_keywords) {in_enum = true;}LEX_KEYWORD(T_ENUM);}
 "equations"     { LEX_KEYWORD(T_EQUATIONS);}
 "inherited"     { LEX_KEYWORD(T_INHERITED);}
 "mandatory"     { LEX_KEYWORD(T_MANDATORY);}
@@ -154,7 +154,7 @@ static inline void check_c_keyword(const char *);
 "disallowed"    { LEX_KEYWORD(T_DISALLOWED);}
 "optional"      { LEX_KEYWORD(T_OPTIONAL);}
 "allowed"       { LEX_KEYWORD(T_ALLOWED);}
-"->"            { LEX_KEYWORD(T_ARROW);}
+"->"            { return T_ARROW;}
 "false"         { LEX_KEYWORD(T_FALSE);}
 "true"          { LEX_KEYWORD(T_TRUE);}
 "gate"          { LEX_KEYWORD(T_GATE);}
-- 
2.43.0


From 03591a287c9cd29ed7e58e2c03356019eade1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:55 +0000
Subject: [PATCH 41/68] fix: visit hash table entries in the order of
 insertion, not of addresses

---
 palm/src/hash_table.c | 78 ++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 42 deletions(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 3d07679..acecfa2 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -14,6 +14,8 @@ struct htable_entry {
     void *key;
     void *value;
     struct htable_entry *next;
+    struct htable_entry *inserted_before;
+    struct htable_entry *inserted_after;
 };
 
 struct htable {
@@ -22,11 +24,14 @@ struct htable {
     is_equal_ft is_equal_f;
     size_t size;
     size_t elements;
+    /* Entries in the order of insertion, the order in which they are visited:
+       the buckets of pointers differ from one run to the next. */
+    struct htable_entry *first;
+    struct htable_entry *last;
 };
 
 struct htable_iter {
     htable_st *table;
-    size_t current_element;
     struct htable_entry *current_entry;
 };
 
@@ -43,6 +48,8 @@ struct htable *HTnew(size_t size, hash_key_ft hash_func, is_equal_ft is_equal_fu
     struct htable *table = MEMmalloc(sizeof(struct htable));
     table->size = size;
     table->elements = 0;
+    table->first = NULL;
+    table->last = NULL;
     table->entries = calloc(sizeof(struct htable_entry *), size);
     table->hash_f = hash_func;
     table->is_equal_f = is_equal_func;
@@ -85,6 +92,14 @@ struct htable_entry *NewEntry(struct htable *table, void *key, void *value)
     entry->key = key;
     entry->value = value;
     entry->next = NULL;
+    entry->inserted_before = table->last;
+    entry->inserted_after = NULL;
+    if (table->last) {
+        table->last->inserted_after = entry;
+    } else {
+        table->first = entry;
+    }
+    table->last = entry;
 
     return entry;
 }
@@ -92,6 +107,16 @@ struct htable_entry *NewEntry(struct htable *table, void *key, void *value)
 static
 void DeleteEntry(struct htable *table, struct htable_entry *entry)
 {
+    if (entry->inserted_before) {
+        entry->inserted_before->inserted_after = entry->inserted_after;
+    } else {
+        table->first = entry->inserted_after;
+    }
+    if (entry->inserted_after) {
+        entry->inserted_after->inserted_before = entry->inserted_before;
+    } else {
+        table->last = entry->inserted_before;
+    }
     MEMfree(entry);
 }
 
@@ -231,35 +256,23 @@ size_t HTelementCount(htable_st *table)
 
 void HTfold(htable_st *table, fold_ft fun, void *init_acc)
 {
-    for (size_t i = 0; i < table->size; i++) {
-        struct htable_entry *entry = table->entries[i];
-        while (entry) {
-            fun(init_acc, entry->value);
-            entry = entry->next;
-        }
+    for (struct htable_entry *entry = table->first; entry; entry = entry->inserted_after) {
+        fun(init_acc, entry->value);
     }
 }
 
 
 void HTmap(struct htable *table, map_ft fun)
 {
-    for (size_t i = 0; i < table->size; i++) {
-        struct htable_entry *entry = table->entries[i];
-        while (entry) {
-            entry->value = fun(entry->value);
-            entry = entry->next;
-        }
+    for (struct htable_entry *entry = table->first; entry; entry = entry->inserted_after) {
+        entry->value = fun(entry->value);
     }
 }
 
 void HTmapWithKey(struct htable *table, mapk_ft fun)
 {
-    for (size_t i = 0; i < table->size; i++) {
-        struct htable_entry *entry = table->entries[i];
-        while (entry) {
-            entry->value = fun(entry->key, entry->value);
-            entry = entry->next;
-        }
+    for (struct htable_entry *entry = table->first; entry; entry = entry->inserted_after) {
+        entry->value = fun(entry->key, entry->value);
     }
 }
 
@@ -269,12 +282,8 @@ void HTmapWithKey(struct htable *table, mapk_ft fun)
  */
 void HTmapWithDataAndKey(htable_st *table, void *data, mapdk_ft fun)
 {
-    for (size_t i = 0; i < table->size; i++) {
-        struct htable_entry *entry = table->entries[i];
-        while (entry) {
-            entry->value = fun(data, entry->key, entry->value);
-            entry = entry->next;
-        }
+    for (struct htable_entry *entry = table->first; entry; entry = entry->inserted_after) {
+        entry->value = fun(data, entry->key, entry->value);
     }
 }
 
@@ -289,14 +298,7 @@ htable_iter_st *HTiterate(htable_st *table) {
 
     htable_iter_st *iterator = MEMmalloc(sizeof(htable_iter_st));
     iterator->table = table;
-    iterator->current_entry = NULL;
-    for (size_t i = 0; i < table->size; i++) {
-        if (table->entries[i]) {
-            iterator->current_entry = table->entries[i];
-            iterator->current_element = i;
-            break;
-        }
-    }
+    iterator->current_entry = table->first;
 
     // Should have failed at table->elements check
     assert(iterator->current_entry != NULL);
@@ -305,20 +307,12 @@ htable_iter_st *HTiterate(htable_st *table) {
 
 /* Iterate to next element. Destroys iterator if there are no more elements */
 htable_iter_st *HTiterateNext(htable_iter_st *iter) {
-    struct htable_entry *next = iter->current_entry->next;
+    struct htable_entry *next = iter->current_entry->inserted_after;
     if (next != NULL) {
         iter->current_entry = next;
         return iter;
     }
 
-    for (size_t i = iter->current_element + 1; i < iter->table->size; ++i) {
-        if (iter->table->entries[i] != NULL) {
-            iter->current_entry = iter->table->entries[i];
-            iter->current_element = i;
-            return iter;
-        }
-    }
-
     // No more elements
     MEMfree(iter);
     return NULL;
-- 
2.43.0


From 23e0a05e4cf596771c9d4cee03001d967356e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 42/68] fix: a phase named cleanup clashed with a table of the
 runtime

---
 cocogen/phase_driver/gen_action_array.c | 2 +-
 cocogen/phase_driver/gen_ids_table.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/phase_driver/gen_action_array.c b/cocogen/phase_driver/gen_action_array.c
index 08cefe2..ddc8a8c 100644
--- a/cocogen/phase_driver/gen_action_array.c
+++ b/cocogen/phase_driver/gen_action_array.c
@@ -29,7 +29,7 @@ node_st *GAAast(node_st *node)
         "{TRAV_free,},},\n", enum_action_pref);
 
     OUT("{CCN_ACTION_PHASE, %s_cleanup, \"Cleanup\", .phase = {NULL, NT_%s, "
-        "cleanup_ids_table, false, %s_cleanup,},},\n",
+        "ccn_cleanup_ids, false, %s_cleanup,},},\n",
         enum_action_pref, ID_UPR(INODE_NAME(AST_ROOT_NODE(ast))), enum_action_pref);
 
     OUT("};\n\n");
diff --git a/cocogen/phase_driver/gen_ids_table.c b/cocogen/phase_driver/gen_ids_table.c
index bdfe7b2..f0c2ce3 100644
--- a/cocogen/phase_driver/gen_ids_table.c
+++ b/cocogen/phase_driver/gen_ids_table.c
@@ -25,7 +25,7 @@ node_st *GITast(node_st *node)
     OUT("#include \"ccn/phase_driver.h\"\n");
 
     ast = node;
-    OUT("enum %s cleanup_ids_table[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
+    OUT("enum %s ccn_cleanup_ids[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 8aee969dfa74d272fb59d249bc427bbffa747461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:20 +0000
Subject: [PATCH 43/68] fix: reject names that clash with members of generated
 enumerations or functions of the runtime

---
 cocogen/frontend/check_existance.c | 39 ++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index e94618f..4dd1d25 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -46,6 +46,38 @@ void checkUID(node_st *id)
     }
 }
 
+/* Every generated C enumeration has a NULL member of its own. */
+static void checkNotNull(node_st *id)
+{
+    if (id != NULL && STReq(ID_LWR(id), "null")) {
+        struct ctinfo info;
+        id_to_info(id, &info);
+        CTIobj(CTI_ERROR, true, info, "Name is reserved: %s\n", ID_ORIG(id));
+    }
+}
+
+/* The helper function for a child is called TRAV<child>, and the runtime has
+   functions of its own. */
+static char *child_name_reserved[] = {
+    "start",
+    "error",
+    "nop",
+    "opt",
+    "push",
+    "pop",
+};
+
+static void checkChildName(node_st *id)
+{
+    for (unsigned int i = 0; i < sizeof(child_name_reserved)/sizeof(child_name_reserved[0]); i++) {
+        if (STReq(ID_LWR(id), child_name_reserved[i])) {
+            struct ctinfo info;
+            id_to_info(id, &info);
+            CTIobj(CTI_ERROR, true, info, "Child name is reserved: %s\n", ID_ORIG(id));
+        }
+    }
+}
+
 /* References are case-insensitive, but a C enum only exists in the spelling of its definition. */
 static void useDefinedSpelling(node_st *reference, node_st *name)
 {
@@ -117,6 +149,7 @@ node_st *CEXiactions(node_st *node)
 node_st *CEXiphase(node_st *node)
 {
     checkUID(IPHASE_IPREFIX(node));
+    checkNotNull(IPHASE_NAME(node));
     if (IPHASE_IS_START(node)) {
         if (seen_start_phase) {
             CTI(CTI_ERROR, true, "Double definition of a starting phase.");
@@ -133,6 +166,8 @@ node_st *CEXiphase(node_st *node)
 node_st *CEXitraversal(node_st *node)
 {
     checkUID(ITRAVERSAL_IPREFIX(node));
+    checkNotNull(ITRAVERSAL_IPREFIX(node));
+    checkNotNull(ITRAVERSAL_NAME(node));
     if (trav_data_names != NULL) {
         CCNfree(trav_data_names);
     }
@@ -176,6 +211,7 @@ node_st  *CEXitravdata(node_st *node)
 node_st *CEXipass(node_st *node)
 {
     checkUID(IPASS_IPREFIX(node));
+    checkNotNull(IPASS_NAME(node));
     TRAVchildren(node);
     return node;
 }
@@ -187,6 +223,7 @@ node_st *CEXinode(node_st *node)
         id_to_info(INODE_NAME(node), &info);
         CTIobj(CTI_ERROR, true, info, "Can not call node 'node'.");
     }
+    checkNotNull(INODE_NAME(node));
     if (INODE_IS_ROOT(node)) {
         if (!seen_root_node) {
             AST_ROOT_NODE(root) = node;
@@ -207,6 +244,7 @@ node_st *CEXinode(node_st *node)
 
 node_st *CEXinodeset(node_st *node)
 {
+    checkNotNull(INODESET_NAME(node));
     TRAViattributes(node);
     TRAVexpr(node);
     if (node_ste != NULL) {
@@ -225,6 +263,7 @@ node_st *CEXnodeset_child_entry(node_st *node)
 
 node_st *CEXchild(node_st *node)
 {
+    checkChildName(CHILD_NAME(node));
     node_st *ref = STlookup(ste, CHILD_TYPE_REFERENCE(node));
     if (!ref) {
         struct ctinfo info;
-- 
2.43.0


From e29bb1b855a54c5527eeab8d57c4ccc0596b6f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:39 +0000
Subject: [PATCH 44/68] fix: --show-ast aborted if an attribute is evaluated in
 a visit

---
 cocogen/print/print.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 8c77378..d49feef 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -478,7 +478,8 @@ node_st *PRTvisit_sequence_eval(node_st *node)
 {
     PrintIndent();
     printf("eval ");
-    TRAVattribute(node);
+    // The attribute is a link, not a child.
+    TRAVdo(VISIT_SEQUENCE_EVAL_ATTRIBUTE(node));
     printf("\n");
     TRAVnext(node);
     return node;
-- 
2.43.0


From 2cee84aab5151c9dd8ed1f4e943c4c8167f80f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 45/68] fix: headers of evaluation functions did not declare
 node_st and NULL

---
 cocogen/dynamic_backend/gen_equation_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 922b8fe..1eef61a 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -72,6 +72,7 @@ node_st *DGEFinode(node_st *node) {
         OUT("#include \"ccngen/ccn_defs.h\"\n");
         OUT("#include \"ccn/ccn_types.h\"\n");
         OUT("#include \"ccngen/enum.h\"\n");
+        OUT("#include \"ccngen/ast.h\"\n");
         OUT("#ifdef CCN_USES_UNSAFE\n");
         OUT("#include \"user_types.h\"\n");
         OUT("#endif\n");
-- 
2.43.0


From a9958aea018e13d8005edbb05f0434c03c0155fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 46/68] fix: reject fields of different nodes that get the same
 macro

---
 cocogen/frontend/check_attributes.c | 53 +++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index d53533c..379bb80 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -12,9 +12,44 @@
 #include "ccngen/trav.h"
 #include "frontend/ctihelp.h"
 #include "palm/ctinfo.h"
+#include "palm/hash_table.h"
+#include "palm/memory.h"
+#include "palm/str.h"
 
-void CHAinit() { return; }
-void CHAfini() { return; }
+static const int htable_size = 200;
+static htable_st *macros = NULL;
+
+static void *delete_macro(void *key, void *value) {
+    (void)value; // suppress warning
+    return MEMfree(key);
+}
+
+void CHAinit() { macros = HTnew_String(htable_size); }
+
+void CHAfini() {
+    HTmapWithKey(macros, delete_macro);
+    HTdelete(macros);
+    macros = NULL;
+}
+
+/* Fields are accessed with the macro <owner>_<field>, which can be the same for
+   different fields, as in A.b_c and A_b.c. */
+static void check_macro(node_st *owner, node_st *field) {
+    char *macro = STRcatn(3, ID_UPR(owner), "_", ID_UPR(field));
+    node_st *other = HTlookup(macros, macro);
+    if (other == NULL) {
+        HTinsert(macros, macro, owner);
+        return;
+    }
+
+    struct ctinfo info;
+    id_to_info(field, &info);
+    CTIobj(CTI_ERROR, true, info,
+           "Macro '%s' for '%s' of '%s' is already used for a field of '%s'\n",
+           macro, ID_ORIG(field), ID_ORIG(owner), ID_ORIG(other));
+    CCNerrorPhase();
+    MEMfree(macro);
+}
 
 /**
  * @fn CHAinodeset
@@ -30,6 +65,11 @@ node_st *CHAinodeset(node_st *node) {
         CCNerrorPhase();
     }
 
+    for (node_st *attribute = INODESET_IATTRIBUTES(node); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        check_macro(INODESET_NAME(node), ATTRIBUTE_NAME(attribute));
+    }
+
     TRAViattributes(node);
     TRAVnext(node);
 
@@ -43,6 +83,15 @@ node_st *CHAinode(node_st *node) {
     DATA_CHA_GET()->in_nodeset = false;
     DATA_CHA_GET()->curr_node = node;
 
+    for (node_st *child = INODE_ICHILDREN(node); child != NULL;
+         child = CHILD_NEXT(child)) {
+        check_macro(INODE_NAME(node), CHILD_NAME(child));
+    }
+    for (node_st *attribute = INODE_IATTRIBUTES(node); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        check_macro(INODE_NAME(node), ATTRIBUTE_NAME(attribute));
+    }
+
     TRAViattributes(node);
     TRAVnext(node);
 
-- 
2.43.0


From b2a764ac107bd8d5be8a2e95a5107d4d9de7533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 47/68] fix: reject fields and traversals that are named like a
 C keyword in other case

---
 cocogen/frontend/check_existance.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 4dd1d25..ff9123f 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -78,6 +78,27 @@ static void checkChildName(node_st *id)
     }
 }
 
+/* Fields of nodes and the data of traversals become members of C structures,
+   with their name in lower case. */
+static char *member_name_reserved[] = {
+    "auto", "bool", "break", "case", "char", "const", "continue", "default",
+    "do", "double", "else", "enum", "extern", "false", "float", "for", "goto",
+    "if", "inline", "int", "long", "register", "restrict", "return", "short",
+    "signed", "sizeof", "static", "struct", "switch", "true", "typedef",
+    "union", "unsigned", "void", "volatile", "while",
+};
+
+static void checkMemberName(node_st *id)
+{
+    for (unsigned int i = 0; i < sizeof(member_name_reserved)/sizeof(member_name_reserved[0]); i++) {
+        if (STReq(ID_LWR(id), member_name_reserved[i])) {
+            struct ctinfo info;
+            id_to_info(id, &info);
+            CTIobj(CTI_ERROR, true, info, "Name is a C keyword in lower case: %s\n", ID_ORIG(id));
+        }
+    }
+}
+
 /* References are case-insensitive, but a C enum only exists in the spelling of its definition. */
 static void useDefinedSpelling(node_st *reference, node_st *name)
 {
@@ -168,6 +189,9 @@ node_st *CEXitraversal(node_st *node)
     checkUID(ITRAVERSAL_IPREFIX(node));
     checkNotNull(ITRAVERSAL_IPREFIX(node));
     checkNotNull(ITRAVERSAL_NAME(node));
+    if (ITRAVERSAL_DATA(node) != NULL) {
+        checkMemberName(ITRAVERSAL_NAME(node));
+    }
     if (trav_data_names != NULL) {
         CCNfree(trav_data_names);
     }
@@ -264,6 +288,7 @@ node_st *CEXnodeset_child_entry(node_st *node)
 node_st *CEXchild(node_st *node)
 {
     checkChildName(CHILD_NAME(node));
+    checkMemberName(CHILD_NAME(node));
     node_st *ref = STlookup(ste, CHILD_TYPE_REFERENCE(node));
     if (!ref) {
         struct ctinfo info;
@@ -335,6 +360,7 @@ node_st *CEXsetliteral(node_st *node)
 
 node_st *CEXattribute(node_st *node)
 {
+    checkMemberName(ATTRIBUTE_NAME(node));
     if (STlookup(node_ste, ATTRIBUTE_NAME(node)) == NULL) {
         node_ste = STadd(node_ste, ATTRIBUTE_NAME(node), node);
     } else {
-- 
2.43.0


From 554eff9d7b0d17b3a436c68aea1b3c515673c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:25 +0000
Subject: [PATCH 48/68] fix: an attribute could have the name of the children
 member of its node

---
 cocogen/dynamic_backend/gen_node_access_funcs.c | 2 +-
 cocogen/dynamic_backend/gen_node_constructor.c  | 2 +-
 cocogen/dynamic_backend/gen_node_structs.c      | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_node_access_funcs.c b/cocogen/dynamic_backend/gen_node_access_funcs.c
index 8922558..b5edba7 100644
--- a/cocogen/dynamic_backend/gen_node_access_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_access_funcs.c
@@ -83,7 +83,7 @@ node_st *DGNAFchild(node_st *node) {
     OUT_END_IF();
     OUT("#endif\n");
 
-    OUT("return &(node->data.N_%s->%s_children.%s_children_st.%s);\n",
+    OUT("return &(node->data.N_%s->%s_CHILDREN.%s_children_st.%s);\n",
         ID_LWR(INODE_NAME(curr_node)), ID_LWR(INODE_NAME(curr_node)),
         ID_LWR(INODE_NAME(curr_node)), ID_LWR(CHILD_NAME(node)));
     OUT_END_FUNC();
diff --git a/cocogen/dynamic_backend/gen_node_constructor.c b/cocogen/dynamic_backend/gen_node_constructor.c
index 0cbf708..6dcd913 100644
--- a/cocogen/dynamic_backend/gen_node_constructor.c
+++ b/cocogen/dynamic_backend/gen_node_constructor.c
@@ -46,7 +46,7 @@ node_st *DGNCinode(node_st *node)
         OUT_FIELD("NODE_NUMCHILDREN(node) = %ld", num_children);
         if (num_children) {
             char *name_lwr = ID_LWR(INODE_NAME(node));
-            OUT_FIELD("NODE_CHILDREN(node) = node->data.N_%s->%s_children.%s_children_at", name_lwr, name_lwr, name_lwr);
+            OUT_FIELD("NODE_CHILDREN(node) = node->data.N_%s->%s_CHILDREN.%s_children_at", name_lwr, name_lwr, name_lwr);
         }
     }
     OUT("return node;\n");
diff --git a/cocogen/dynamic_backend/gen_node_structs.c b/cocogen/dynamic_backend/gen_node_structs.c
index f940fe7..f7ccd67 100644
--- a/cocogen/dynamic_backend/gen_node_structs.c
+++ b/cocogen/dynamic_backend/gen_node_structs.c
@@ -38,7 +38,8 @@ node_st *DGNSinode(node_st *node)
             TRAVichildren(node);
             OUT_TYPEDEF_STRUCT_END("%s_children_st", name_lwr);
             OUT_FIELD("%s *%s_children_at[%d]", basic_node_type, name_lwr, child_num);
-            OUT_TYPEDEF_STRUCT_END("%s_children", name_lwr);
+            /* Fields are in lower case, so they cannot have this name. */
+            OUT_TYPEDEF_STRUCT_END("%s_CHILDREN", name_lwr);
         }
         curr_node = node;
         TRAViattributes(node);
-- 
2.43.0


From f6d8b67bd24a37f76ca9dfffdae6dff0476f8a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:25 +0000
Subject: [PATCH 49/68] fix: reject a child named node, which its constructor
 cannot have as parameter

---
 cocogen/frontend/check_existance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index ff9123f..7435682 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -57,7 +57,7 @@ static void checkNotNull(node_st *id)
 }
 
 /* The helper function for a child is called TRAV<child>, and the runtime has
-   functions of its own. */
+   functions of its own. Constructors have a variable called node. */
 static char *child_name_reserved[] = {
     "start",
     "error",
@@ -65,6 +65,7 @@ static char *child_name_reserved[] = {
     "opt",
     "push",
     "pop",
+    "node",
 };
 
 static void checkChildName(node_st *id)
-- 
2.43.0


From bd56bb2d04641b34ad1b086b64a22444372a27da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:39 +0000
Subject: [PATCH 50/68] fix: reject a child named children, whose helper
 function is one of the runtime

---
 cocogen/frontend/check_existance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 7435682..1502a2e 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -66,6 +66,7 @@ static char *child_name_reserved[] = {
     "push",
     "pop",
     "node",
+    "children",
 };
 
 static void checkChildName(node_st *id)
-- 
2.43.0


From fa63a0a39e9aad8591cab1b7891d1db3fb80113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:58 +0000
Subject: [PATCH 51/68] fix: reject equations that get the same evaluation
 function

---
 cocogen/frontend/check_product_rules.c | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index f8df46f..bf4a7ce 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -19,8 +19,10 @@
 #include "palm/str.h"
 
 static const int htable_size = 100;
+static htable_st *functions = NULL;
 
 void CPRinit() {
+    functions = HTnew_String(htable_size);
     DATA_CPR_GET()->found_children = HTnew_Ptr(htable_size);
     DATA_CPR_GET()->found_attributes = HTnew_Ptr(htable_size);
     return;
@@ -43,6 +45,9 @@ void CPRfini() {
     HTdelete(DATA_CPR_GET()->found_children);
     HTmap(DATA_CPR_GET()->found_attributes, delete_subtables);
     HTdelete(DATA_CPR_GET()->found_attributes);
+    HTmapWithKey(functions, delete_keys);
+    HTdelete(functions);
+    functions = NULL;
     return;
 }
 
@@ -239,6 +244,30 @@ static void duplicate_error(node_st *reference, char *what) {
     CCNerrorAction();
 }
 
+/* The names of nodes, children and attributes can be divided in more than one
+   way over the name of an evaluation function, as in A, b_c.d and A_b, c.d. */
+static void check_function(node_st *rule) {
+    node_st *node = INODE_NAME(DATA_CPR_GET()->curr_node);
+    node_st *child = ATTRIBUTE_REFERENCE_INODE(rule);
+    node_st *attribute = ATTRIBUTE_REFERENCE_IATTRIBUTE(rule);
+    char *name = STRfmt("EVAL%s_%s_%s", ID_LWR(node),
+                        child == NULL ? "this" : ID_LWR(child),
+                        ID_LWR(attribute));
+    node_st *other = HTlookup(functions, name);
+    if (other == NULL) {
+        HTinsert(functions, name, node);
+        return;
+    }
+
+    struct ctinfo info;
+    id_to_info(attribute, &info);
+    CTIobj(CTI_ERROR, true, info,
+           "Function '%s' is already used for an equation of node '%s'\n", name,
+           ID_ORIG(other));
+    CCNerrorAction();
+    MEMfree(name);
+}
+
 static bool has_inherited_attribute(node_st *attributes) {
     for (; attributes != NULL; attributes = ATTRIBUTE_NEXT(attributes)) {
         if (ATTRIBUTE_IS_INHERITED(attributes)) {
@@ -321,6 +350,7 @@ node_st *CPRequation(node_st *node) {
             break;
         }
     }
+    check_function(EQUATION_RULE(node));
     TRAViargs(node);
     TRAVnext(node);
     return node;
-- 
2.43.0


From 3cfd6bb2953a30f66a43247c8db8eaa6a835bed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:27 +0000
Subject: [PATCH 52/68] fix: reject attributes that get the same variable

---
 cocogen/frontend/check_product_rules.c | 38 ++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index bf4a7ce..6549532 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -20,6 +20,7 @@
 
 static const int htable_size = 100;
 static htable_st *functions = NULL;
+static htable_st *variables = NULL;
 
 void CPRinit() {
     functions = HTnew_String(htable_size);
@@ -268,6 +269,29 @@ static void check_function(node_st *rule) {
     MEMfree(name);
 }
 
+/* The same for a variable of the generated functions, as for b_c.d and b.c_d. */
+static void check_variable(node_st *child, node_st *attribute, node_st *place) {
+    char *owner = child == NULL ? "this" : ID_LWR(child);
+    char *name = STRcatn(3, owner, "_", ID_LWR(attribute));
+    char *other = HTlookup(variables, name);
+    if (other == NULL) {
+        HTinsert(variables, name, owner);
+        return;
+    }
+
+    if (!STReq(owner, other)) {
+        struct ctinfo info;
+        id_to_info(place, &info);
+        CTIobj(CTI_ERROR, true, info,
+               "Variable '%s' in node '%s' is used for attributes of both '%s' "
+               "and '%s'\n",
+               name, ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)), other,
+               owner);
+        CCNerrorAction();
+    }
+    MEMfree(name);
+}
+
 static bool has_inherited_attribute(node_st *attributes) {
     for (; attributes != NULL; attributes = ATTRIBUTE_NEXT(attributes)) {
         if (ATTRIBUTE_IS_INHERITED(attributes)) {
@@ -331,9 +355,12 @@ node_st *CPRast(node_st *node) {
  */
 node_st *CPRinode(node_st *node) {
     DATA_CPR_GET()->curr_node = node;
+    variables = HTnew_String(htable_size);
     TRAViequations(node);
     TRAVichildren(node);
     TRAViattributes(node);
+    HTmapWithKey(variables, delete_keys);
+    HTdelete(variables);
     TRAVnext(node);
     return node;
 }
@@ -362,6 +389,9 @@ node_st *CPRequation(node_st *node) {
 node_st *CPRequation_dependency(node_st *node) {
     node_st *reference = EQUATION_DEPENDENCY_IATTRIBUTE(node);
     check_attribute_reference(reference, false);
+    check_variable(ATTRIBUTE_REFERENCE_INODE(reference),
+                   ATTRIBUTE_REFERENCE_IATTRIBUTE(reference),
+                   ATTRIBUTE_REFERENCE_IATTRIBUTE(reference));
     for (node_st *dep = EQUATION_DEPENDENCY_NEXT(node); dep != NULL;
          dep = EQUATION_DEPENDENCY_NEXT(dep)) {
         if (is_same_reference(reference, EQUATION_DEPENDENCY_IATTRIBUTE(dep))) {
@@ -381,6 +411,9 @@ node_st *CPRattribute(node_st *node) {
         check_product_rule(INODE_IEQUATIONS(DATA_CPR_GET()->curr_node), NULL,
                            ATTRIBUTE_NAME(node));
     }
+    if (ATTRIBUTE_IS_SYNTHESIZED(node) || ATTRIBUTE_IS_INHERITED(node)) {
+        check_variable(NULL, ATTRIBUTE_NAME(node), ATTRIBUTE_NAME(node));
+    }
 
     TRAVnext(node);
     return node;
@@ -410,6 +443,11 @@ node_st *CPRchild(node_st *node) {
             check_product_rule(INODE_IEQUATIONS(DATA_CPR_GET()->curr_node),
                                CHILD_NAME(node), ATTRIBUTE_NAME(attribute));
         }
+        if (ATTRIBUTE_IS_SYNTHESIZED(attribute) ||
+            ATTRIBUTE_IS_INHERITED(attribute)) {
+            check_variable(CHILD_NAME(node), ATTRIBUTE_NAME(attribute),
+                           CHILD_NAME(node));
+        }
     }
 
     TRAVnext(node);
-- 
2.43.0


From 0aad1dbaafe3a2fbb290a244a2763f58d0f63d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:01 +0000
Subject: [PATCH 53/68] fix: --show-ast lists all passes

---
 cocogen/print/print.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index d49feef..4dfa5d1 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -98,6 +98,7 @@ node_st *PRTitravdata(node_st *node)
 node_st *PRTipass(node_st *node)
 {
     printf("Pass: %s\n", ID_ORIG(IPASS_NAME(node)));
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From abfbcfd8fbaedd47cd41b88c76fa74539ad6178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:01 +0000
Subject: [PATCH 54/68] fix: the diagram of the AST names referenced nodes as
 they are defined

---
 cocogen/dot/gen_dot.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cocogen/dot/gen_dot.c b/cocogen/dot/gen_dot.c
index 72897d6..f6ea48c 100644
--- a/cocogen/dot/gen_dot.c
+++ b/cocogen/dot/gen_dot.c
@@ -6,6 +6,7 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
+#include "frontend/symboltable.h"
 #include "palm/hash_table.h"
 #include <gen_helpers/out_macros.h>
 #include <globals.h>
@@ -14,10 +15,28 @@
 static node_st *curr_node;
 static node_st *curr_nodeset;
 static htable_st *seen;
+static node_st *symbol_table;
+
+/**
+ * Name of the node or nodeset that is referenced, as spelled in its definition:
+ * references are not sensitive to letter case, but the DOT language is.
+ */
+static char *TypeName(node_st *reference)
+{
+    node_st *entry = STlookup(symbol_table, reference);
+    if (entry && NODE_TYPE(entry) == NT_INODE) {
+        return ID_ORIG(INODE_NAME(entry));
+    }
+    if (entry && NODE_TYPE(entry) == NT_INODESET) {
+        return ID_ORIG(INODESET_NAME(entry));
+    }
+    return ID_ORIG(reference);
+}
 
 node_st *GDast(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
+    symbol_table = AST_STABLE(node);
     seen = HTnew_String(10);
     GNopenSourceFile(ctx, "ast.dot");
     OUT("digraph Ast {\n");
@@ -54,7 +73,7 @@ node_st *GDsetliteral(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (node && SETLITERAL_REFERENCE(node)) {
-        OUT("%s -> %s [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), ID_ORIG(SETLITERAL_REFERENCE(node)));
+        OUT("%s -> %s [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), TypeName(SETLITERAL_REFERENCE(node)));
     }
     TRAVright(node);
     TRAVleft(node);
@@ -66,7 +85,7 @@ node_st *GDattribute(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_link) {
         OUT("%s -> %s[color=red, label=\"%s\"]\n",
-            ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)),
+            ID_ORIG(INODE_NAME(curr_node)), TypeName(ATTRIBUTE_TYPE_REFERENCE(node)),
             ID_ORIG(ATTRIBUTE_NAME(node)));
     }
 
@@ -78,7 +97,7 @@ node_st *GDchild(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (!HTlookup(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)))) {
-        OUT("%s -> %s[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
+        OUT("%s -> %s[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), TypeName(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
         //HTinsert(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)), node);
     }
 
-- 
2.43.0


From 4a4260158538f866fd1151b890cacbd0a36612f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:09 +0000
Subject: [PATCH 55/68] fix: quote names in the diagram of the AST, a node
 named edge made it malformed

---
 cocogen/dot/gen_dot.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cocogen/dot/gen_dot.c b/cocogen/dot/gen_dot.c
index f6ea48c..13bee3b 100644
--- a/cocogen/dot/gen_dot.c
+++ b/cocogen/dot/gen_dot.c
@@ -52,7 +52,7 @@ node_st *GDinode(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     HTclear(seen);
     curr_node = node;
-    OUT("%s;\n", ID_ORIG(INODE_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODE_NAME(node)));
     TRAVichildren(node);
     TRAViattributes(node);
     TRAVnext(node);
@@ -62,7 +62,7 @@ node_st *GDinode(node_st *node)
 node_st *GDinodeset(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    OUT("%s;\n", ID_ORIG(INODESET_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODESET_NAME(node)));
     curr_nodeset = node;
     TRAVexpr(node);
     TRAVnext(node);
@@ -73,7 +73,7 @@ node_st *GDsetliteral(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (node && SETLITERAL_REFERENCE(node)) {
-        OUT("%s -> %s [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), TypeName(SETLITERAL_REFERENCE(node)));
+        OUT("\"%s\" -> \"%s\" [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), TypeName(SETLITERAL_REFERENCE(node)));
     }
     TRAVright(node);
     TRAVleft(node);
@@ -84,7 +84,7 @@ node_st *GDattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_link) {
-        OUT("%s -> %s[color=red, label=\"%s\"]\n",
+        OUT("\"%s\" -> \"%s\"[color=red, label=\"%s\"]\n",
             ID_ORIG(INODE_NAME(curr_node)), TypeName(ATTRIBUTE_TYPE_REFERENCE(node)),
             ID_ORIG(ATTRIBUTE_NAME(node)));
     }
@@ -97,7 +97,7 @@ node_st *GDchild(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (!HTlookup(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)))) {
-        OUT("%s -> %s[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), TypeName(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
+        OUT("\"%s\" -> \"%s\"[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), TypeName(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
         //HTinsert(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)), node);
     }
 
-- 
2.43.0


From e3c19348f93791974e60ef9b88f53c34f6f4d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:53 +0000
Subject: [PATCH 56/68] fix: phases other than the start phase do not number
 their actions twice

---
 cocogen/frontend/lifetimes/assign_id_to_actions.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/lifetimes/assign_id_to_actions.c b/cocogen/frontend/lifetimes/assign_id_to_actions.c
index 3c7814f..41fd4db 100644
--- a/cocogen/frontend/lifetimes/assign_id_to_actions.c
+++ b/cocogen/frontend/lifetimes/assign_id_to_actions.c
@@ -20,7 +20,8 @@ node_st *AITAast(node_st *node)
 {
     ste = AST_STABLE(node);
     assert(AST_START_PHASE(node) != NULL);
-    TRAVdo(AST_START_PHASE(node));
+    // Only the start phase, not the phases that follow it in the specification.
+    TRAViactions(AST_START_PHASE(node));
     return node;
 }
 
-- 
2.43.0


From 68ab8eea991adfe09fbea91ca4180b51bd665403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:21 +0000
Subject: [PATCH 57/68] fix: --show-ast tells allowed and optional lifetimes
 from disallowed ones

---
 cocogen/print/print.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 4dfa5d1..79cdb36 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -416,10 +416,22 @@ node_st *PRTste(node_st *node)
 node_st *PRTilifetime(node_st *node)
 {
     PrintIndent();
-    if (ILIFETIME_TYPE(node) == LT_mandatory) {
-        printf("mandatory");
-    } else {
-        printf("disallowed");
+    switch (ILIFETIME_TYPE(node)) {
+        case LT_mandatory:
+            printf("mandatory");
+            break;
+        case LT_disallowed:
+            printf("disallowed");
+            break;
+        case LT_optional:
+            printf("optional");
+            break;
+        case LT_allowed:
+            printf("allowed");
+            break;
+        default:
+            printf("<unknown lifetime>");
+            break;
     }
     printf("(");
     TRAVbegin(node);
-- 
2.43.0


From c4470bfb13412d21515d1683f1de8bcdb2d0e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:30 +0000
Subject: [PATCH 58/68] fix: running out of memory in the parser is reported
 instead of crashing it

---
 cocogen/frontend/scanAndParse/dsl-lexer.l  |  2 +-
 cocogen/frontend/scanAndParse/dsl-parser.y | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index adc879b..d6d1768 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -16,7 +16,7 @@
 #define LEX_KEYWORD(k) if (yy_lex_keywords) \
                                 return k;   \
                             else {          \
-                                yylval.string = strdup(yytext); \
+                                yylval.string = STRcpy(yytext); \
                                 return T_ID; \
                             } \
 
diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 93f148a..be020ff 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -47,7 +47,7 @@ struct bison_attribute_options {
 
 struct bison_attribute_options *parse_attribute_options(struct bison_attribute_options_temp *start) {
     struct bison_attribute_options_temp *cur, *prev;
-    struct bison_attribute_options *data = malloc(sizeof(struct bison_attribute_options));
+    struct bison_attribute_options *data = MEMmalloc(sizeof(struct bison_attribute_options));
     data->lifetime = NULL;
     data->constructor = false;
     data->inherited = false;
@@ -752,22 +752,22 @@ attribute_optional_keywords:
 
 attribute_optional_keyword: T_CONSTRUCTOR
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_constructor;
     }
     | T_INHERITED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_inherited;
     }
     | T_SYNTHESIZED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_synthesized;
     }
     | lifetime
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_lifetime;
         $$->lifetime = $1;
         ILIFETIME_NEXT($$->lifetime) = NULL;
-- 
2.43.0


From d958bfc1048f10f0db537e62fb971c5776c5a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:57 +0000
Subject: [PATCH 59/68] fix: failing to write an output file is reported

---
 .../attribute_scheduler/schedule_attribute_visits.c       | 8 ++++++--
 cocogen/generator/generator.c                             | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index a61ae24..e2774ba 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -625,7 +625,6 @@ node_st *SAVast(node_st *node) {
         CTI(CTI_ERROR, false, "Could not open file: %s\n", log_file_name);
         CTIabortCompilation();
     }
-    MEMfree(log_file_name);
 
     // Schedule visit sequences
     htable_st *visit_mdata_htable = HTnew_Ptr(htable_size);
@@ -643,7 +642,12 @@ node_st *SAVast(node_st *node) {
         fprintf(log_file, "\n\n");
     }
 
-    fclose(log_file);
+    bool log_failed = ferror(log_file);
+    if (fclose(log_file) != 0 || log_failed) {
+        CTI(CTI_ERROR, false, "Could not write file: %s\n", log_file_name);
+        CTIabortCompilation();
+    }
+    MEMfree(log_file_name);
 
     // fill in visit stubs
     for (node_st *inode = AST_INODES(node); inode != NULL;
diff --git a/cocogen/generator/generator.c b/cocogen/generator/generator.c
index a538476..fbbf254 100644
--- a/cocogen/generator/generator.c
+++ b/cocogen/generator/generator.c
@@ -116,5 +116,8 @@ void GNprint(GeneratorContext *ctx, unsigned int style, const char *fmt, ...)
         GNindentDecrease(ctx);
     }
 
-    fflush(ctx->fp);
+    if (fflush(ctx->fp) == EOF || ferror(ctx->fp)) {
+        perror("Could not write output file");
+        exit(1);
+    }
 }
-- 
2.43.0


From 44c52973b53b581216bc8c1a8d9a7cf2fc15d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:26 +0000
Subject: [PATCH 60/68] fix: running out of memory for a hash table is reported

---
 palm/src/hash_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index acecfa2..1694a78 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -9,6 +9,7 @@
 #include "palm/memory.h"
 #include "palm/str.h"
 #include "palm/dbug.h"
+#include "palm/ctinfo.h"
 
 struct htable_entry {
     void *key;
@@ -51,6 +52,9 @@ struct htable *HTnew(size_t size, hash_key_ft hash_func, is_equal_ft is_equal_fu
     table->first = NULL;
     table->last = NULL;
     table->entries = calloc(sizeof(struct htable_entry *), size);
+    if (table->entries == NULL && size > 0) {
+        CTIabortOutOfMemory(sizeof(struct htable_entry *) * size);
+    }
     table->hash_f = hash_func;
     table->is_equal_f = is_equal_func;
 
-- 
2.43.0


From 8bd22c91e088f7e023706f3825b9c96341b4ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:12 +0000
Subject: [PATCH 61/68] fix: an empty --gen-dir is not the root directory

---
 cocogen/filesystem/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/filesystem/utils.c b/cocogen/filesystem/utils.c
index 1202a1f..e129d19 100644
--- a/cocogen/filesystem/utils.c
+++ b/cocogen/filesystem/utils.c
@@ -3,5 +3,5 @@
 
 char *FSdirifyString(char *path)
 {
-    return path[STRlen(path) - 1] != '/' ? STRcat(path, "/") : STRcpy(path);
+    return STRlen(path) > 0 && path[STRlen(path) - 1] != '/' ? STRcat(path, "/") : STRcpy(path);
 }
-- 
2.43.0


From a4b9dc8eb0219aacf3833ef74d596707571ed3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:50 +0000
Subject: [PATCH 62/68] fix: show a child that is named as its parent in the
 attribute graphs

---
 cocogen/dot/gen_dot_ag.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/cocogen/dot/gen_dot_ag.c b/cocogen/dot/gen_dot_ag.c
index 8f7a438..3be86d0 100644
--- a/cocogen/dot/gen_dot_ag.c
+++ b/cocogen/dot/gen_dot_ag.c
@@ -24,6 +24,11 @@ static inline node_st *get_node_name(node_st *node) {
     }
 }
 
+// Children and nodes have separate names, a name never starts with an underscore
+static inline const char *get_name_prefix(node_st *node) {
+    return NODE_TYPE(node) == NT_CHILD ? "" : "_";
+}
+
 GDag_st *GDag_dot_init(char *filename) {
     GDag_st *dot = MEMmalloc(sizeof(struct GDag));
     GeneratorContext *ctx = globals.gen_ctx;
@@ -66,7 +71,7 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                         htable_st *partition_table) {
     (void)dot;
     GeneratorContext *ctx = globals.gen_ctx;
-    htable_st *seen = HTnew_String(10);
+    htable_st *seen = HTnew_Ptr(10);
     OUT("subgraph cluster_%s {\n", name);
     OUT("style=\"filled\";\n");
     OUT("color=\"lightgrey\";\n");
@@ -74,9 +79,11 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
     for (struct GRnode *node = graph->nodes; node != NULL; node = node->next) {
         bool child = NODE_TYPE(node->node) == NT_CHILD;
         node_st *node_name = get_node_name(node->node);
-        if (HTlookup(seen, ID_LWR(node_name)) == NULL) {
-            HTinsert(seen, ID_LWR(node_name), node_name);
-            OUT("subgraph cluster_%s__%s {\n", name, ID_LWR(node_name));
+        if (HTlookup(seen, node->node) == NULL) {
+            const char *prefix = get_name_prefix(node->node);
+            HTinsert(seen, node->node, node_name);
+            OUT("subgraph cluster_%s__%s%s {\n", name, prefix,
+                ID_LWR(node_name));
             OUT("style=\"filled\";\n");
             OUT("color=\"ivory\";\n");
             if (child) {
@@ -92,8 +99,8 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                 if (attr->node != node->node) {
                     continue;
                 }
-                OUT("attr_%s__%s__%s [label=<%s", name, ID_LWR(node_name),
-                    ID_LWR(ATTRIBUTE_NAME(attr->attribute)),
+                OUT("attr_%s__%s%s__%s [label=<%s", name, prefix,
+                    ID_LWR(node_name), ID_LWR(ATTRIBUTE_NAME(attr->attribute)),
                     ID_ORIG(ATTRIBUTE_NAME(attr->attribute)));
 
                 if (partition_table != NULL) {
@@ -124,10 +131,10 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
             continue;
         }
 
-        OUT("attr_%s__%s__%s -> attr_%s__%s__%s", name,
-            ID_LWR(get_node_name(n1->node)),
+        OUT("attr_%s__%s%s__%s -> attr_%s__%s%s__%s", name,
+            get_name_prefix(n1->node), ID_LWR(get_node_name(n1->node)),
             ID_LWR(ATTRIBUTE_NAME(n1->attribute)), name,
-            ID_LWR(get_node_name(n2->node)),
+            get_name_prefix(n2->node), ID_LWR(get_node_name(n2->node)),
             ID_LWR(ATTRIBUTE_NAME(n2->attribute)));
         if (edge->type == GRinduced) {
             OUT(" [style=\"dotted\"]");
-- 
2.43.0


From 9e49c2f5dd6f965d0a43a840104ccb0cd08725ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:28 +0000
Subject: [PATCH 63/68] fix: name the graphs of a nodeset unlike those of any
 node

---
 .../frontend/attribute_scheduler/schedule_attribute_visits.c  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index e2774ba..07564eb 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -471,7 +471,9 @@ static void dump_dotfile(htable_st *graphs, char *filename,
             char *name;
             if (multiple) {
                 char *tmp = STRitoa(i);
-                name = STRcatn(3, ID_ORIG(dot_name), "_", tmp);
+                // A name never starts with an underscore, so that no node or
+                // nodeset is named like this
+                name = STRcatn(4, "_", ID_ORIG(dot_name), "_", tmp);
                 MEMfree(tmp);
             } else {
                 name = ID_ORIG(dot_name);
-- 
2.43.0


From 50ae0793e526cbfb3eefa2839900c33ba76b021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:53 +0000
Subject: [PATCH 64/68] fix: accept -b, the documented short form of
 --breakpoint

---
 cocogen/commandline.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 3242992..855099f 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -94,7 +94,7 @@ void CLprocessArgs(int argc, char *argv[]) {
     char *endptr;
 
     while (1) {
-        c = getopt_long(argc, argv, "v", long_options, &option_index);
+        c = getopt_long(argc, argv, "vb:", long_options, &option_index);
 
         // End of options
         if (c == -1)
@@ -135,6 +135,7 @@ void CLprocessArgs(int argc, char *argv[]) {
         case 32:
             global_command_line.show_ast = true;
             break;
+        case 'b':
         case 33:
             CCNsetBreakpoint(optarg);
             break;
-- 
2.43.0


From 3cd969f40ff74dcbf5d0adc64104d4aea8b53003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:53 +0000
Subject: [PATCH 65/68] fix: let --verbose do what -v does

---
 cocogen/commandline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 855099f..228fee7 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -71,7 +71,7 @@ void CLprocessArgs(int argc, char *argv[]) {
 
     // TODO: remove the hardcoded identifiers.
     static struct option long_options[] = {
-        {"verbose", no_argument, &global_command_line.verbose, 1},
+        {"verbose", no_argument, 0, 'v'},
         {"help", no_argument, 0, 'h'},
         {"dot", required_argument, 0, 23},
         {"version", no_argument, 0, 20},
-- 
2.43.0


From ad3a4e7e3207d41b7d5256e5c8950251c3879280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:54 +0000
Subject: [PATCH 66/68] fix: reject an iteration limit followed by something
 else

---
 cocogen/commandline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/commandline.c b/cocogen/commandline.c
index 228fee7..0bbabd3 100644
--- a/cocogen/commandline.c
+++ b/cocogen/commandline.c
@@ -148,7 +148,7 @@ void CLprocessArgs(int argc, char *argv[]) {
         case 36:
             global_command_line.ag_scheduler_max_iter = strtoul(optarg, &endptr,
                                                                 10);
-            if (endptr == optarg) {
+            if (endptr == optarg || *endptr != '\0') {
                 printf("CLI: Error parsing ag max iter. Could not convert '%s' "
                        "to an integer. Exiting.\n", optarg);
                 exit(EXIT_FAILURE);
-- 
2.43.0


From 5de245fc4715e87175d7a39c603e35db081bd9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:37 +0000
Subject: [PATCH 67/68] fix: keep the info text of a traversal from ending the
 comment it is put in

---
 cocogen/dynamic_backend/gen_user_traversals.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_user_traversals.c b/cocogen/dynamic_backend/gen_user_traversals.c
index 1df9fb6..05e5b9f 100644
--- a/cocogen/dynamic_backend/gen_user_traversals.c
+++ b/cocogen/dynamic_backend/gen_user_traversals.c
@@ -34,7 +34,10 @@ node_st *DUGTitraversal(node_st *node)
     OUT(" *\n");
     OUT(" *\n");
     if (ITRAVERSAL_IINFO(node)) {
-        OUT(" * @brief %s\n", ITRAVERSAL_IINFO(node));
+        // The text may not end the comment it is put in.
+        char *text = STRsubstToken(ITRAVERSAL_IINFO(node), "*/", "* /");
+        OUT(" * @brief %s\n", text);
+        MEMfree(text);
     }
     OUT(" */\n\n");
     OUT("#include \"ccn/ccn.h\"\n");
-- 
2.43.0


From dc160a9399db8f2c771765ebf307588ca6562544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:20 +0000
Subject: [PATCH 68/68] fix: use COCONUT_BUILD_DIR and COCOGEN_DIR of the
 project that includes coconut.cmake

---
 coconut.cmake | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coconut.cmake b/coconut.cmake
index 85b1441..6f31581 100644
--- a/coconut.cmake
+++ b/coconut.cmake
@@ -1,10 +1,10 @@
 set(COCONUT_ROOT_DIR ${CMAKE_CURRENT_LIST_DIR})
 
-if(NOT DEFINED ${COCONUT_BUILD_DIR})
+if(NOT DEFINED COCONUT_BUILD_DIR)
     set(COCONUT_BUILD_DIR "${COCONUT_ROOT_DIR}/build")
 endif()
 
-if(NOT DEFINED ${COCOGEN_DIR})
+if(NOT DEFINED COCOGEN_DIR)
     set(COCOGEN_DIR "${COCONUT_BUILD_DIR}/cocogen")
 endif()
 
-- 
2.43.0

