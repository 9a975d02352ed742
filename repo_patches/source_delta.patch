From 40933aee7d331a11682847e66a07440d193c377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 01/37] fix: do not shrink a merged readahead range when the
 next map lies inside it

---
 preload-src/src/handling/readahead.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..7f685e5 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -310,8 +310,9 @@ preload_readahead (preload_map_t **files, int file_count)
 	  offset + length >= files[i]->offset &&
 	  0 == strcmp (path, files[i]->path))
         {
-	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  /* merge requests; the next map may lie entirely inside this range */
+	  if (files[i]->offset + files[i]->length > offset + length)
+	    length = files[i]->offset + files[i]->length - offset;
 	  continue;
 	}
 
-- 
2.43.0


From cf2cea3468437e4f1d1c6bb08805b1707460f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 02/37] fix: keep the FIBMAP block number instead of always
 replacing it by the inode

---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 7f685e5..6ab6691 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,7 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
-- 
2.43.0


From b7a64cc25daf7d5ccbe018ae2db069dee9aa5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 03/37] fix: stop waiting for readahead children when there are
 none left

---
 preload-src/src/handling/readahead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 6ab6691..b5d16f7 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -119,6 +119,8 @@ wait_for_children (void)
       int status;
       if (wait (&status) > 0)
 	procs--;
+      else if (errno != EINTR)
+	procs = 0; /* no children left to wait for */
     }
 }
 
-- 
2.43.0


From 2a51f0a86c564329f57acd2317db2df9be14baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 04/37] fix: report an error flushing the state file instead of
 renaming a truncated one into place

---
 preload-src/src/handling/state_io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..674f2c5 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -626,6 +626,9 @@ write_state (GIOChannel *f)
   if (!wc.err) preload_markov_foreach ((GFunc)write_markov, &wc);
   if (!wc.err) vomm_export_state (write_vomm_node_callback, &wc);
 
+  /* the channel is buffered: make sure everything really got written */
+  if (!wc.err) g_io_channel_flush (f, &wc.err);
+
   g_string_free (wc.line, TRUE);
   if (wc.err) {
     char *tmp;
-- 
2.43.0


From f39b9b26bc2d095c6e4cf4622af665be88bcfe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 05/37] fix: do not leak the URI or overwrite the first error
 when writing the state file fails

---
 preload-src/src/handling/state_io.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 674f2c5..2b8833b 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -484,18 +484,21 @@ write_map (preload_map_t *map, gpointer G_GNUC_UNUSED data, write_context_t *wc)
 {
   char *uri;
 
+  if (wc->err)
+    return;
+
   uri = g_filename_to_uri (map->path, NULL, &(wc->err));
   if (!uri)
     return;
 
-  write_tag (TAG_MAP);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lu\t%lu\t%d\t%s",
 		   map->seq, (long long)map->update_time, (long)map->offset, (long)map->length, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_MAP);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -508,18 +511,21 @@ write_badexe (gpointer key, gpointer value, gpointer user_data)
 
   char *uri;
 
+  if (wc->err)
+    return;
+
   uri = g_filename_to_uri (path, NULL, &(wc->err));
   if (!uri)
     return;
 
-  write_tag (TAG_BADEXE);
   g_string_printf (wc->line,
 		   "%d\t%d\t%s",
 		   update_time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_BADEXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -528,18 +534,21 @@ write_exe (gpointer G_GNUC_UNUSED key, preload_exe_t *exe, write_context_t *wc)
 {
   char *uri;
 
+  if (wc->err)
+    return;
+
   uri = g_filename_to_uri (exe->path, NULL, &(wc->err));
   if (!uri)
     return;
 
-  write_tag (TAG_EXE);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lld\t%d\t%s",
 		   exe->seq, (long long)exe->update_time, (long long)exe->time, -1/*expansion*/, uri);
+  g_free (uri);
+
+  write_tag (TAG_EXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
-- 
2.43.0


From ace538471ab63edc17822e27c6c4e346a4929a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 06/37] fix: refuse a state file with a Markov chain from an
 exe to itself instead of crashing

---
 preload-src/src/handling/state_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 2b8833b..2d7a2ee 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -240,6 +240,10 @@ read_markov (read_context_t *rc)
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
+  if (a == b) { /* a chain needs two different exes */
+    rc->errmsg = READ_SYNTAX_ERROR;
+    return;
+  }
 
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
-- 
2.43.0


From af532ad229d4dd476071e2d5273d4e0bead18a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 07/37] fix: read back URIs of long or escaped paths from the
 state file untruncated

---
 preload-src/src/handling/state_io.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 2d7a2ee..429a4ab 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -45,6 +45,12 @@
 #define TAG_VOMM_NODE   "VOMMNODE"
 
 
+/* a path of up to FILELEN bytes becomes at most this long as a file:// URI,
+ * where each byte can be escaped into three */
+#define URILEN          1543
+#define URILENSTR       "1543"
+
+
 #define READ_TAG_ERROR			"invalid tag"
 #define READ_SYNTAX_ERROR		"invalid syntax"
 #define READ_INDEX_ERROR		"invalid index"
@@ -60,7 +66,7 @@ typedef struct _read_context_t
   GHashTable *exes;
   gpointer data;
   GError *err;
-  char filebuf[FILELEN];
+  char filebuf[URILEN + 1];
 } read_context_t;
 
 
@@ -77,7 +83,7 @@ read_map (read_context_t *rc)
   long long t_update_time;
 
   if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"URILENSTR"s",
 		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -123,7 +129,7 @@ read_badexe (read_context_t *rc)
   return;
 
   if (3 > sscanf (rc->line,
-		  "%d %d %"FILELENSTR"s",
+		  "%d %d %"URILENSTR"s",
 		  &size, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
@@ -154,7 +160,7 @@ read_exe (read_context_t *rc)
   long long t_update_time, t_time;
 
   if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
+		  "%" G_GINT64_FORMAT " %lld %lld %d %"URILENSTR"s",
 		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
-- 
2.43.0


From 54ae2f46879948497bcd9eaab1987c802f3df8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:46 +0000
Subject: [PATCH 08/37] fix: read map paths up to the end of the line so that
 whitespace and (deleted) are seen

---
 preload-src/src/monitoring/proc.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..5b36d84 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -109,10 +109,15 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
     {
       char file[FILELEN] = {0};
       long start = 0, end = 0, offset = 0, length = 0;
-      int count;
+      int count, n = 0;
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
-		      &start, &end, &offset, file);
+      /* the path is everything up to the end of the line, including any
+       * whitespace and the "(deleted)" mark */
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"[^\n]%n",
+		      &start, &end, &offset, file, &n);
+
+      if (count == 4 && buffer[n] && buffer[n] != '\n')
+        continue; /* path didn't fit completely */
 
       if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
         continue;
-- 
2.43.0


From cf291c87c27e6be9b7bc11bc0af18420c0768084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 09/37] fix: skip duplicate VOMM nodes of a state file instead
 of leaving dangling pointers to the first one

---
 preload-src/src/algorithm/vomm.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..795d2c2 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -475,10 +475,10 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     if (import_node_map == NULL) {
         import_node_map = g_hash_table_new(g_direct_hash, g_direct_equal);
         /* Add root as ID 0 */
-        g_hash_table_insert(import_node_map, GINT_TO_POINTER(0), vomm_system.root);
+        g_hash_table_insert(import_node_map, GSIZE_TO_POINTER(0), vomm_system.root);
     }
 
-    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)parent_id));
+    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, GSIZE_TO_POINTER((gsize)parent_id));
     if (!parent_node) {
         g_warning("[VOMM] Orphan node id=%" G_GINT64_FORMAT ", parent=%" G_GINT64_FORMAT " not found. Skipping.", id, parent_id);
         return;
@@ -489,6 +489,13 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    /* A second child for the same exe would free the first one, to which
+     * import_node_map and its children still point */
+    if (g_hash_table_lookup(parent_node->children, exe->path)) {
+        g_warning("[VOMM] Duplicate node id=%" G_GINT64_FORMAT " for %s. Skipping.", id, exe->path);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
@@ -500,7 +507,7 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     g_hash_table_insert(parent_node->children, g_strdup(exe->path), node);
 
     /* Remember this node for future children */
-    g_hash_table_insert(import_node_map, GINT_TO_POINTER((gint)id), node);
+    g_hash_table_insert(import_node_map, GSIZE_TO_POINTER((gsize)id), node);
 }
 
 void vomm_import_done(void) {
-- 
2.43.0


From 892c6b602d04c1ab59729f9782f95463ac4d3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 10/37] fix: limit the depth of the VOMM tree to MAX_VOMM_DEPTH
 as documented

---
 preload-src/src/algorithm/vomm.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 795d2c2..e401004 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -88,6 +88,16 @@ void vomm_cleanup(void) {
  */
 #define MAX_VOMM_DEPTH 5
 
+/* Helper: number of steps from the root, 0 for the root itself */
+static int vomm_node_depth(const vomm_node_t *node) {
+    int depth = 0;
+    while (node->parent) {
+        node = node->parent;
+        depth++;
+    }
+    return depth;
+}
+
 void vomm_update(preload_exe_t *exe) {
     if (!exe) return;
     
@@ -113,7 +123,8 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    if (!vomm_system.current_context ||
+        vomm_node_depth(vomm_system.current_context) >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
@@ -489,6 +500,12 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    /* Older versions did not limit the depth of the tree */
+    if (vomm_node_depth(parent_node) >= MAX_VOMM_DEPTH) {
+        g_debug("[VOMM] Node id=%" G_GINT64_FORMAT " is too deep. Skipping.", id);
+        return;
+    }
+
     /* A second child for the same exe would free the first one, to which
      * import_node_map and its children still point */
     if (g_hash_table_lookup(parent_node->children, exe->path)) {
-- 
2.43.0


From 1a688b7281bb24a938194fd44fe96722d8834c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 11/37] fix: keep the VOMM tree read from the state file
 instead of discarding it at startup

---
 preload-src/src/algorithm/vomm.c | 13 +++++++++++++
 preload-src/src/algorithm/vomm.h |  6 ++++++
 preload-src/src/handling/state.c |  5 +----
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index e401004..2cf565b 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -67,6 +67,19 @@ gboolean vomm_init(void) {
     return TRUE;
 }
 
+gboolean vomm_start(void) {
+    /* A tree read from the state file (or already in use) is kept as it is */
+    if (vomm_system.root && g_hash_table_size(vomm_system.root->children) > 0)
+        return TRUE;
+
+    if (!vomm_system.root && !vomm_init())
+        return FALSE;
+
+    /* VOMM starts empty; hydrate it from the legacy state */
+    vomm_hydrate_from_state();
+    return TRUE;
+}
+
 void vomm_cleanup(void) {
     if (vomm_system.root) {
         vomm_node_free(vomm_system.root);
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..2a8e07b 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -21,6 +21,12 @@ typedef struct _vomm_system_t vomm_system_t;
 
 /* Core Functions */
 gboolean vomm_init(void);
+
+/*
+ * Makes VOMM ready for use: keeps a tree that has been imported, or else
+ * initializes an empty one and hydrates it from the legacy Markov state.
+ */
+gboolean vomm_start(void);
 void vomm_cleanup(void);
 
 /* 
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..6d0d9a7 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -243,11 +243,8 @@ void
 preload_state_run (const char *statefile)
 {
   if (preload_is_vomm_algorithm()) {
-      if (!vomm_init()) {
+      if (!vomm_start()) {
           g_warning("Failed to initialize VOMM algorithm");
-      } else {
-          /* VOMM starts empty; hydrate it from the loaded legacy state */
-          vomm_hydrate_from_state();
       }
   }
   g_timeout_add (0, preload_state_tick, NULL);
-- 
2.43.0


From 5785faba1eedb3e56eb9125c97315c6e5df385af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 12/37] fix: record an exe that runs in several processes only
 once at startup

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 6d0d9a7..aa63f98 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -59,7 +59,7 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   preload_exe_t *exe;
 
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  if (exe && !exe_is_running (exe)) { /* once per exe, not once per process */
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
     
-- 
2.43.0


From 9413e28aa0f8c6d43d8ac930c5a952f378eece2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 13/37] fix: initialize VOMM when a configuration reload
 switches to it

---
 preload-src/src/daemon/preload.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 7900f7e..6731748 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -29,6 +29,7 @@
 #include "conf.h"
 #include "state.h"
 #include "context.h"
+#include "vomm.h"
 
 #include <signal.h>
 #include <grp.h>
@@ -92,6 +93,8 @@ sig_handler_sync (gpointer data)
   switch (GPOINTER_TO_INT (data)) {
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
+      if (preload_is_vomm_algorithm () && !vomm_start ())
+        g_warning ("Failed to initialize VOMM algorithm");
       preload_log_reopen (ctx->logfile);
       break;
     case SIGUSR1:
-- 
2.43.0


From 532f84ab2967d1174b81125dbe0ea4a30a0619c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 14/37] fix: drop all references to an exe that is removed from
 the model

---
 preload-src/src/algorithm/vomm.c | 34 ++++++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  6 +++++-
 preload-src/src/handling/exe.c   |  7 +++++++
 preload-src/src/monitoring/spy.c |  7 +++++++
 preload-src/src/monitoring/spy.h |  2 ++
 5 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 2cf565b..7887bbc 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -93,6 +93,40 @@ void vomm_cleanup(void) {
     vomm_system.history_length = 0;
 }
 
+/* Helper: remove the nodes of an exe below node, with everything under them */
+static void vomm_node_prune(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer value;
+
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, NULL, &value)) {
+        vomm_node_t *child = (vomm_node_t*)value;
+        if (child->exe == exe)
+            g_hash_table_iter_remove(&iter);
+        else
+            vomm_node_prune(child, exe);
+    }
+}
+
+void vomm_forget_exe(preload_exe_t *exe) {
+    vomm_node_t *node;
+
+    if (!exe || !vomm_system.root) return;
+
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+
+    /* The current context must not be inside what is removed */
+    for (node = vomm_system.current_context; node; node = node->parent) {
+        if (node->exe == exe) {
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    }
+
+    vomm_node_prune(vomm_system.root, exe);
+}
+
 /* 
  * Update mechanism:
  * In a full VOMM, we would store every sequence. For this hybrid version,
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 2a8e07b..4170e0a 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -33,11 +33,15 @@ void vomm_cleanup(void);
  * Updates the VOMM model with a new execution event.
  * Adds the sequence to the tree and updates frequencies.
  *
- * This function stores the exe pointer; caller must ensure exe remains valid until vomm_cleanup.
+ * This function stores the exe pointer; caller must call vomm_forget_exe before freeing the exe,
+ * unless vomm_cleanup is called next.
  * If exe is NULL, the function returns immediately.
  */
 void vomm_update(preload_exe_t *exe);
 
+/* Removes everything that refers to an exe which is about to be freed. */
+void vomm_forget_exe(preload_exe_t *exe);
+
 /* 
  * Predicts the next likely files to be needed based on the current context.
  * Uses Hybrid approach:
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..a216b5c 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,8 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "spy.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -180,5 +182,10 @@ preload_state_unregister_exe (preload_exe_t *exe)
 
   g_hash_table_steal (state->exes, exe->path);
 
+  /* nothing may refer to it anymore */
+  state->running_exes = g_slist_remove_all (state->running_exes, exe);
+  preload_spy_forget_exe (exe);
+  vomm_forget_exe (exe);
+
   preload_exe_free (exe);
 }
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..8982d8f 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -156,6 +156,13 @@ exe_changed_callback (gpointer data, gpointer G_GNUC_UNUSED user_data)
   g_ptr_array_foreach (exe->markovs, (GFunc)preload_markov_state_changed, NULL);
 }
 
+/* an exe is about to be freed between a scan and the model update */
+void
+preload_spy_forget_exe (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+}
+
 void
 preload_spy_scan (gpointer data)
 {
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..9e9430c 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -2,8 +2,10 @@
 #define SPY_H
 
 #include <glib.h>
+#include "exe.h"
 
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
+void preload_spy_forget_exe (preload_exe_t *exe);
 
 #endif
-- 
2.43.0


From e6e33a11da748ba4ffe57da248f0030243208e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 15/37] fix: make VOMM bids raise the priority of likely exes
 as documented, not lower it

---
 preload-src/src/algorithm/vomm.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 7887bbc..21fc40a 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -245,10 +245,9 @@ static void predict_ppm(vomm_node_t *node) {
         double child_conf = (double)child->count / total_children_calls;
         
         /* Clamp child_conf to a safe range to avoid log(0) */
-        const double epsilon = 1e-9;
-        child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
+        child_conf = fmax(0.0, fmin(0.99, child_conf));
         
-        child->exe->lnprob += log(child_conf);
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
@@ -272,9 +271,10 @@ static void predict_dg_fallback(vomm_node_t *node) {
         
         if (child->count > 0) {
              /* Weak bid for all neighbors */
-             /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             /* Add a small probability boost: lnprob is the log of the
+              * probability that the exe is NOT needed */
+             child->exe->lnprob += log(0.9);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(0.9));
         }
     }
 }
-- 
2.43.0


From c8356b0f155139189c6397890c5b2c31dace2426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 16/37] fix: do not leak when loading the configuration fails

---
 preload-src/src/config/conf.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..3c3a470 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -46,6 +46,15 @@ set_default_conf (preload_conf_t *conf)
 #undef confkey
 }
 
+/* free what the values of a configuration point to */
+static void
+free_conf_values (preload_conf_t *conf)
+{
+  g_strfreev (conf->system.mapprefix);
+  g_strfreev (conf->system.exeprefix);
+  g_free (conf->system.prediction_algorithm);
+}
+
 void
 preload_conf_load (const char *conffile, gboolean fail)
 {
@@ -65,6 +74,9 @@ preload_conf_load (const char *conffile, gboolean fail)
       f = g_key_file_new ();
       if (!g_key_file_load_from_file (f, conffile, G_KEY_FILE_NONE, &e)) {
 	g_log (G_LOG_DOMAIN, flags, "failed loading conf from %s: %s", conffile, e->message);
+	g_error_free (e);
+	g_key_file_free (f);
+	free_conf_values (&newconf);
 	return;
       }
 
@@ -87,6 +99,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
+	  g_key_file_free (f); \
+	  free_conf_values (&newconf); \
 	  return; \
 	} else { \
 	  g_error_free (e); \
@@ -100,9 +114,7 @@ preload_conf_load (const char *conffile, gboolean fail)
     }
 
   /* free the old configuration */
-  g_strfreev (conf->system.mapprefix);
-  g_strfreev (conf->system.exeprefix);
-  g_free (conf->system.prediction_algorithm);
+  free_conf_values (conf);
 
   *conf = newconf;
 }
-- 
2.43.0


From 6594ace47617bf1e4a31499e4fd3c1c8bbe9ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:21 +0000
Subject: [PATCH 17/37] fix: let the documented configuration key
 system.processes take effect

---
 preload-src/src/config/conf.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 3c3a470..88bb2e9 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -107,6 +107,23 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  e = NULL; \
 	}
 #include "confkeys.h"
+      /* system.maxprocs is called "processes" in the documentation and in the
+       * configuration files that come with preload */
+      if (!g_key_file_has_key (f, "system", "maxprocs", NULL)) {
+	int processes_val = g_key_file_get_integer (f, "system", "processes", &e);
+	if (!e) {
+	  newconf.system.maxprocs = processes_val;
+	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) {
+	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key system.processes: %s", e->message);
+	  g_error_free (e);
+	  g_key_file_free (f);
+	  free_conf_values (&newconf);
+	  return;
+	} else {
+	  g_error_free (e);
+	  e = NULL;
+	}
+      }
 #undef confkey
 
       g_key_file_free (f);
-- 
2.43.0


From ed4198cb9f77d99c18f0c0d1ca72f6ab29671e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 18/37] fix: process the exes that changed state before
 registering new ones

---
 preload-src/src/monitoring/spy.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index 8982d8f..98cfef6 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -205,16 +205,17 @@ preload_spy_update_model (gpointer data)
 {
   int period;
 
-  /* register newly discovered exes */
-  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
-  g_hash_table_destroy (new_exes);
-  new_exes = NULL;  /* Prevent double-free on next scan */
-
-  /* and adjust states for those changing */
+  /* adjust states for those changing.  this comes first: the chains of new exes
+   * start from the states as they are after these changes */
   g_slist_foreach (state_changed_exes, (GFunc)exe_changed_callback, data);
   g_slist_free (state_changed_exes);
   state_changed_exes = NULL;  /* Prevent double-free on next scan */
 
+  /* and register newly discovered exes */
+  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
+  g_hash_table_destroy (new_exes);
+  new_exes = NULL;  /* Prevent double-free on next scan */
+
   /* do some accounting */
   period = (int)(state->time - state->last_accounting_timestamp);
   g_hash_table_foreach (state->exes, (GHFunc)running_exe_inc_time, GINT_TO_POINTER (period));
-- 
2.43.0


From a3bd57036e83c3c2a9693aca626be25684372401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 19/37] fix: do not count all time before a restart as time
 spent in the first Markov state after it

---
 preload-src/src/handling/state_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 429a4ab..25a9644 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -253,6 +253,8 @@ read_markov (read_context_t *rc)
 
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
+  /* it's in its current state since now, not since time zero */
+  markov->change_timestamp = state->time;
 
   for (markov_state = 0; markov_state < 4; markov_state++) {
     double x;
-- 
2.43.0


From 8f4697964210df196a845ed516e4778baa648fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 20/37] fix: do not abort on inconsistent running times in the
 state file

---
 preload-src/src/algorithm/markov.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..0a110ff 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -177,11 +177,13 @@ preload_markov_correlation (preload_markov_t *markov)
     correlation = 0;
   else {
     numerator = ((double)t*ab) - ((double)a * b);
-    denominator2 = ((double)a * b) * ((double)(t - a) * (t - b));
+    denominator2 = ((double)a * b) * (((double)t - a) * ((double)t - b));
     correlation = numerator / sqrt (denominator2);
   }
   
-  g_assert (fabs (correlation) <= 1.00001);
+  /* times read from a state file need not be consistent with each other */
+  if (!(fabs (correlation) <= 1.00001))
+    correlation = 0;
   return correlation;
 }
 
-- 
2.43.0


From 976f9b6acb8ab6430d42319730ea49aa835d78d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 21/37] fix: compute the memory budget and map sizes without
 integer overflow

---
 preload-src/src/algorithm/prophet.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..09c4fe1 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -194,7 +194,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((gint64)((v) / 1024 + ((v) % 1024 != 0)))
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
@@ -202,7 +202,7 @@ void
 preload_prophet_readahead (GPtrArray *maps_arr)
 {
   int i;
-  int memavail, memavailtotal; /* in kilobytes */
+  gint64 memavail, memavailtotal; /* in kilobytes */
   preload_memory_t memstat;
   preload_map_t *map;
 
@@ -229,21 +229,21 @@ preload_prophet_readahead (GPtrArray *maps_arr)
     memavail = memstat.available;
     
     /* Apply configured percentage (can be negative to reserve memory) */
-    memavail = clamp_percent(conf->model.memtotal) * (memstat.total / 100)
-             + clamp_percent(conf->model.memfree)  * (memavail / 100);
+    memavail = (gint64)clamp_percent(conf->model.memtotal) * (memstat.total / 100)
+             + (gint64)clamp_percent(conf->model.memfree)  * (memavail / 100);
   } else {
     /* Fallback for older kernels */
-    memavail  = clamp_percent(conf->model.memtotal)  * (memstat.total  / 100)
-              + clamp_percent(conf->model.memfree)   * (memstat.free   / 100);
+    memavail  = (gint64)clamp_percent(conf->model.memtotal)  * (memstat.total  / 100)
+              + (gint64)clamp_percent(conf->model.memfree)   * (memstat.free   / 100);
   }
   
   memavail  = max (0, memavail);
   
   /* Add configured portion of cached memory */
-  memavail += clamp_percent(conf->model.memcached) * (memstat.cached / 100);
+  memavail += (gint64)clamp_percent(conf->model.memcached) * (memstat.cached / 100);
   
   /* Add configured portion of buffers memory */
-  memavail += clamp_percent(conf->model.membuffers) * (memstat.buffers / 100);
+  memavail += (gint64)clamp_percent(conf->model.membuffers) * (memstat.buffers / 100);
 
   memavailtotal = memavail;
 
@@ -262,7 +262,7 @@ preload_prophet_readahead (GPtrArray *maps_arr)
       map_prob_print (map);
   }
 
-  g_debug ("%dkb available for preloading, using %dkb of it",
+  g_debug ("%" G_GINT64_FORMAT "kb available for preloading, using %" G_GINT64_FORMAT "kb of it",
 	   memavailtotal, memavailtotal - memavail);
 
   if (i) {
-- 
2.43.0


From 51d29937893e21e502ad647e5392f35ef07eb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 22/37] fix: only write to a pipe in the signal handler,
 g_timeout_add is not async-signal-safe

---
 preload-src/src/daemon/preload.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 6731748..b33da05 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -32,6 +32,7 @@
 #include "vomm.h"
 
 #include <signal.h>
+#include <glib-unix.h>
 #include <grp.h>
 
 /* variables */
@@ -112,15 +113,39 @@ sig_handler_sync (gpointer data)
   return FALSE;
 }
 
+/* signal handlers may interrupt anything, malloc and the main loop included, so
+ * all they do is to write the signal number to this pipe, which the main loop
+ * watches. */
+static int sig_pipe[2] = {-1, -1};
+
 static void
 sig_handler (int sig)
 {
-  g_timeout_add (0, sig_handler_sync, GINT_TO_POINTER (sig));
+  int saved_errno = errno;
+  unsigned char c = sig;
+
+  (void) write (sig_pipe[1], &c, 1);
+  errno = saved_errno;
+}
+
+static gboolean
+sig_pipe_callback (gint fd, GIOCondition G_GNUC_UNUSED condition, gpointer G_GNUC_UNUSED data)
+{
+  unsigned char c;
+
+  while (read (fd, &c, 1) == 1)
+    sig_handler_sync (GINT_TO_POINTER ((int)c));
+
+  return TRUE;
 }
 
 static void
 set_sig_handlers (void)
 {
+  if (0 > pipe2 (sig_pipe, O_NONBLOCK | O_CLOEXEC))
+    g_error ("cannot create signal pipe: %s", strerror (errno));
+  g_unix_fd_add (sig_pipe[0], G_IO_IN, sig_pipe_callback, NULL);
+
   /* trap key signals */
   signal (SIGINT,  sig_handler);
   signal (SIGQUIT, sig_handler);
-- 
2.43.0


From ebdd09e0e4a1ab653fa693c7d45c69f52b7b3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 23/37] fix: do not block for ever on a file that has been
 replaced by a FIFO

---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index b5d16f7..c1adf9c 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -45,7 +45,7 @@ set_block(preload_map_t *file, gboolean use_inode)
   /* in case we can get block, set to 0 to not retry */
   file->block = 0;
 
-  fd = open(file->path, O_RDONLY);
+  fd = open(file->path, O_RDONLY | O_NONBLOCK);
   if (fd < 0)
     return;
   
@@ -222,6 +222,7 @@ process_file(const char *path, size_t offset, size_t length)
   fd = open(path,
 	      O_RDONLY
 	    | O_NOCTTY
+	    | O_NONBLOCK /* don't hang if it has become a FIFO */
 #ifdef O_NOATIME
 	    | O_NOATIME
 #endif
-- 
2.43.0


From 014970227d194e078d1790b3c0a002a5078e74e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:09 +0000
Subject: [PATCH 24/37] fix: skip all of an over-long line of the process
 mappings, not just its beginning

---
 preload-src/src/monitoring/proc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 5b36d84..da40173 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -111,6 +111,14 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       long start = 0, end = 0, offset = 0, length = 0;
       int count, n = 0;
 
+      if (!strchr (buffer, '\n') && !feof (in)) {
+	/* line too long for the buffer, and so is the path: skip all of it */
+	int c;
+	while ((c = getc (in)) != EOF && c != '\n')
+	  ;
+	continue;
+      }
+
       /* the path is everything up to the end of the line, including any
        * whitespace and the "(deleted)" mark */
       count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"[^\n]%n",
-- 
2.43.0


From 376f82ed69ccc42176db26e1d81200303ada1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 25/37] fix: use the defaults for a group that is missing from
 the configuration file

---
 preload-src/src/config/conf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index 88bb2e9..32c7050 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -55,6 +55,14 @@ free_conf_values (preload_conf_t *conf)
   g_free (conf->system.prediction_algorithm);
 }
 
+/* whether the key is just not given, nor possibly its whole group */
+static gboolean
+conf_key_missing (const GError *e)
+{
+  return e->code == G_KEY_FILE_ERROR_KEY_NOT_FOUND
+	 || e->code == G_KEY_FILE_ERROR_GROUP_NOT_FOUND;
+}
+
 void
 preload_conf_load (const char *conffile, gboolean fail)
 {
@@ -95,7 +103,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	if (!e) { \
 	  free_##type (newconf.grp.key); \
 	  newconf.grp.key = dummyconf.grp.key; \
-	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
+	} else if (!conf_key_missing (e)) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  g_error_free (e); \
@@ -113,7 +121,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	int processes_val = g_key_file_get_integer (f, "system", "processes", &e);
 	if (!e) {
 	  newconf.system.maxprocs = processes_val;
-	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) {
+	} else if (!conf_key_missing (e)) {
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key system.processes: %s", e->message);
 	  g_error_free (e);
 	  g_key_file_free (f);
-- 
2.43.0


From 38bde066355fd441b7e30f10c0f6bc09fb562b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 26/37] fix: log fatal errors at verbosity 0 as well

---
 preload-src/src/utils/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index ac581bd..50f7cd9 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -36,7 +36,7 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
   char *timestr;
 
   /* ignore unimportant messages */
-  if (log_level <= G_LOG_LEVEL_ERROR << preload_log_level)
+  if ((log_level & G_LOG_LEVEL_MASK) <= G_LOG_LEVEL_ERROR << preload_log_level)
     {
       curtime = time (NULL);
       timestr = ctime (&curtime);
-- 
2.43.0


From 400fa9d0f19303db13eb5be419e50324cf4ad7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 27/37] fix: limit the verbosity to the documented levels 0 to
 10

---
 preload-src/src/config/cmdline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/config/cmdline.c b/preload-src/src/config/cmdline.c
index 5f8c293..1399401 100644
--- a/preload-src/src/config/cmdline.c
+++ b/preload-src/src/config/cmdline.c
@@ -106,7 +106,7 @@ preload_cmdline_parse (preload_ctx_t *ctx, int *argc, char ***argv)
 	  ctx->nicelevel = strtol (optarg, NULL, 10);
 	  break;
 	case 'V':
-	  preload_log_level = strtol (optarg, NULL, 10);
+	  preload_log_level = CLAMP (strtol (optarg, NULL, 10), 0, 10);
 	  break;
 	case 'd':
 	  g_free(ctx->logfile);
-- 
2.43.0


From b67f1fa50f7276f55808d12a4d34efe91aa26285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 28/37] fix: do not truncate inode numbers when sorting by
 inode

---
 preload-src/src/handling/map.h       | 2 +-
 preload-src/src/handling/readahead.c | 5 +----
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/preload-src/src/handling/map.h b/preload-src/src/handling/map.h
index bd973a4..7c5b9b8 100644
--- a/preload-src/src/handling/map.h
+++ b/preload-src/src/handling/map.h
@@ -28,7 +28,7 @@ typedef struct _preload_map_t
   int refcount; /* number of exes linking to this. */
   double lnprob; /* log-probability of NOT being needed in next period. */
   gint64 seq; /* unique map sequence number. */
-  int block; /* on-disk location of the start of the map. */
+  gint64 block; /* on-disk location of the start of the map. */
   int priv; /* for private local use of functions. */
 } preload_map_t;
 
diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c1adf9c..a2605ac 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,10 +64,7 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  if (!block)
-    block = buf.st_ino;
-
-  file->block = block;
+  file->block = block ? block : (gint64) buf.st_ino;
 
   close (fd);
 }
-- 
2.43.0


From 99eac9736df17803401ce0472707d48df48d5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 29/37] fix: treat an error from closing the new state file as
 a failed save

---
 preload-src/src/handling/state_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 25a9644..b7d84dc 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -694,10 +694,13 @@ preload_state_write_file (const char *statefile)
   f = g_io_channel_unix_new (fd);
   errmsg = write_state (f);
   g_io_channel_unref (f);
+
+  /* the file system may report a failed write only now */
+  if (0 > close (fd) && !errmsg)
+    errmsg = g_strdup_printf ("failed writing %s: %s", tmpfile, strerror (errno));
   
   if (errmsg) {
     g_unlink (tmpfile);
-    close (fd);
     g_free (tmpfile);
     return errmsg;
   }
@@ -709,7 +712,6 @@ preload_state_write_file (const char *statefile)
     g_debug ("successfully renamed %s to %s", tmpfile, statefile);
   }
   
-  close (fd);
   g_free (tmpfile);
   g_debug ("saving state done");
   
-- 
2.43.0


From bf19d6ae27e79a0c25a61c6d39c5b5c9d4cd0ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:29 +0000
Subject: [PATCH 30/37] fix: keep memory statistics in 64 bits

---
 preload-src/src/monitoring/proc.c |  4 ++--
 preload-src/src/monitoring/proc.h | 26 +++++++++++++-------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index da40173..3fe3d9b 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -243,13 +243,13 @@ proc_foreach (GHFunc func, gpointer user_data)
 #define read_tag(tag, v) G_STMT_START {				\
 	  const char *b;					\
 	  b = strstr(buf, tag" ");				\
-	  if (b) sscanf(b, tag" %d", &(v));			\
+	  if (b) sscanf(b, tag" %" G_GINT64_FORMAT, &(v));\
 	} G_STMT_END
 
 #define read_tag2(tag, v1, v2) G_STMT_START {			\
 	  const char *b;					\
 	  b = strstr(buf, tag" ");				\
-	  if (b) sscanf(b, tag" %d %d", &(v1), &(v2));		\
+	  if (b) sscanf(b, tag" %" G_GINT64_FORMAT " %" G_GINT64_FORMAT, &(v1), &(v2));	\
 	} G_STMT_END
 
 void
diff --git a/preload-src/src/monitoring/proc.h b/preload-src/src/monitoring/proc.h
index ec98afc..3a977bd 100644
--- a/preload-src/src/monitoring/proc.h
+++ b/preload-src/src/monitoring/proc.h
@@ -9,24 +9,24 @@ typedef struct _preload_memory_t
 
   /* all the following are in kilobytes (1024) */
 
-  int total;	/* total memory */
-  int free;	/* free memory */
-  int buffers;	/* buffers memory (block device metadata) */
-  int cached;	/* page-cache memory (file contents) */
+  gint64 total;	/* total memory */
+  gint64 free;	/* free memory */
+  gint64 buffers;	/* buffers memory (block device metadata) */
+  gint64 cached;	/* page-cache memory (file contents) */
 
   /* LRU list breakdown (Linux 2.6.28+) */
-  int active;         /* recently accessed pages */
-  int inactive;       /* less recently accessed pages */
-  int active_anon;    /* active anonymous pages (heap, stack) */
-  int inactive_anon;  /* inactive anonymous pages */
-  int active_file;    /* active file-backed pages */
-  int inactive_file;  /* inactive file-backed pages */
+  gint64 active;         /* recently accessed pages */
+  gint64 inactive;       /* less recently accessed pages */
+  gint64 active_anon;    /* active anonymous pages (heap, stack) */
+  gint64 inactive_anon;  /* inactive anonymous pages */
+  gint64 active_file;    /* active file-backed pages */
+  gint64 inactive_file;  /* inactive file-backed pages */
 
   /* Available memory (Linux 3.14+, more accurate than free+cached) */
-  int available;      /* estimate of available memory for new allocations */
+  gint64 available;      /* estimate of available memory for new allocations */
 
-  int pagein;	/* total data paged (read) in since boot */
-  int pageout;	/* total data paged (written) out since boot */
+  gint64 pagein;	/* total data paged (read) in since boot */
+  gint64 pageout;	/* total data paged (written) out since boot */
 
 } preload_memory_t;
 
-- 
2.43.0


From 3277a5e09a62341a0779a02901bdee680a3370ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 31/37] fix: a signal that hits a readahead child is not meant
 for the daemon

---
 preload-src/src/daemon/preload.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index b33da05..a7a92ce 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -118,13 +118,17 @@ sig_handler_sync (gpointer data)
  * watches. */
 static int sig_pipe[2] = {-1, -1};
 
+/* the process the signals are meant for; readahead children share the pipe */
+static pid_t daemon_pid;
+
 static void
 sig_handler (int sig)
 {
   int saved_errno = errno;
   unsigned char c = sig;
 
-  (void) write (sig_pipe[1], &c, 1);
+  if (!daemon_pid || getpid () == daemon_pid)
+    (void) write (sig_pipe[1], &c, 1);
   errno = saved_errno;
 }
 
@@ -171,6 +175,7 @@ main (int argc, char **argv)
   set_sig_handlers ();
   if (!ctx->foreground)
     daemonize ();
+  daemon_pid = getpid ();
   if (0 > nice (ctx->nicelevel))
     g_warning ("%s", strerror (errno));
   g_debug ("starting up");
-- 
2.43.0


From b3e6575408e6fdd946fb0ee81356d500a9ccce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 32/37] fix: sort by what the strategy in effect asks for after
 a reload

The block or inode number of a range was looked up once, so after a reload
that changes system.sortstrategy between block and inode, requests went on
being issued in the order of the old strategy.
---
 preload-src/src/handling/readahead.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index a2605ac..9730f64 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -24,6 +24,7 @@
 #include "readahead.h"
 #include "log.h"
 #include "conf.h"
+#include "state.h"
 
 #include <sys/ioctl.h>
 #include <sys/wait.h>
@@ -242,9 +243,18 @@ process_file(const char *path, size_t offset, size_t length)
 static void
 sort_by_block_or_inode (preload_map_t **files, int file_count)
 {
+  static int known_for = -1;
   int i;
   gboolean need_block = FALSE;
 
+  /* what is known may be for the other strategy, before a reload */
+  if (known_for != conf->system.sortstrategy)
+    {
+      for (i=0; i<(int)state->maps_arr->len; i++)
+	((preload_map_t *)g_ptr_array_index (state->maps_arr, i))->block = -1;
+      known_for = conf->system.sortstrategy;
+    }
+
   /* first see if any file doesn't have block/inode info */
   for (i=0; i<file_count; i++)
     if (files[i]->block == -1)
-- 
2.43.0


From b9c028f00307bee22b93839297ecde72c87de6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 33/37] fix: keep standard streams that were closed at the
 start

With one of them closed, the descriptor opened for /dev/null or the log may be
a standard stream itself, and closing it afterwards lost the log, or left its
number to the signal pipe, which the next reopening of the log replaced.
---
 preload-src/src/utils/log.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index 50f7cd9..feb3c1c 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -82,8 +82,11 @@ preload_log_init (const char *logfile)
 	  (dup2 (logfd, STDERR_FILENO) != STDERR_FILENO))
 	g_error ("dup2: %s", strerror (errno));
 
-      close (nullfd);
-      close (logfd);
+      /* either may be a standard stream itself, if that was closed */
+      if (nullfd > STDERR_FILENO)
+	close (nullfd);
+      if (logfd > STDERR_FILENO)
+	close (logfd);
 
       /* g_debug ("opening log file done"); */
     }
-- 
2.43.0


From b28a9c45cce147eb017cafceb6fcb5f54dc6c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 34/37] fix: refuse a state file whose clock is negative or
 about to overflow

---
 preload-src/src/handling/state_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index b7d84dc..cc7b397 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -384,6 +384,14 @@ read_state (GIOChannel *f)
 	break;
       }
 
+      /* Timestamps are compared with each other, and -1 means that an exe is not
+       * running: a clock that is below zero, or that gets there by overflowing
+       * while we run, makes all exes count as running */
+      if (time_val < 0 || time_val > G_MAXINT / 2) {
+	rc.errmsg = READ_SYNTAX_ERROR;
+	break;
+      }
+
       state->last_accounting_timestamp = state->time = time_val;
     }
     else if (!strcmp (tag, TAG_MAP))	read_map (&rc);
-- 
2.43.0


From 1e60d1ccf14d5024fb92c90d785cde6c4d5b64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 35/37] fix: do not lose a signal that arrives while the signal
 pipe is full

---
 preload-src/src/daemon/preload.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index a7a92ce..ad72212 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -118,6 +118,9 @@ sig_handler_sync (gpointer data)
  * watches. */
 static int sig_pipe[2] = {-1, -1};
 
+/* signals that arrived while the pipe was full */
+static volatile sig_atomic_t sig_pending[NSIG];
+
 /* the process the signals are meant for; readahead children share the pipe */
 static pid_t daemon_pid;
 
@@ -127,8 +130,9 @@ sig_handler (int sig)
   int saved_errno = errno;
   unsigned char c = sig;
 
-  if (!daemon_pid || getpid () == daemon_pid)
-    (void) write (sig_pipe[1], &c, 1);
+  if ((!daemon_pid || getpid () == daemon_pid)
+      && write (sig_pipe[1], &c, 1) != 1)
+    sig_pending[sig] = 1;
   errno = saved_errno;
 }
 
@@ -136,10 +140,17 @@ static gboolean
 sig_pipe_callback (gint fd, GIOCondition G_GNUC_UNUSED condition, gpointer G_GNUC_UNUSED data)
 {
   unsigned char c;
+  int sig;
 
   while (read (fd, &c, 1) == 1)
     sig_handler_sync (GINT_TO_POINTER ((int)c));
 
+  for (sig = 1; sig < NSIG; sig++)
+    if (sig_pending[sig]) {
+      sig_pending[sig] = 0;
+      sig_handler_sync (GINT_TO_POINTER (sig));
+    }
+
   return TRUE;
 }
 
-- 
2.43.0


From dd62cabd11bd48723195752b8a6c189ee6b9a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:16 +0000
Subject: [PATCH 36/37] fix: open standard streams that are closed at the start

With standard output and error closed and no log file, the signal pipe took
their place: messages were read as signals, each an exit request that logs
another message, and the daemon never ended.
---
 preload-src/src/daemon/preload.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index ad72212..ee5d5c2 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -171,10 +171,24 @@ set_sig_handlers (void)
   signal (SIGPIPE, SIG_IGN);
 }
 
+/* a standard stream that is closed would be taken by the next file opened, and
+ * what is written to the stream would end up there, the signal pipe included. */
+static void
+open_standard_streams (void)
+{
+  int fd;
+
+  for (fd = STDIN_FILENO; fd <= STDERR_FILENO; fd++)
+    if (0 > fcntl (fd, F_GETFD) && 0 > open ("/dev/null", O_RDWR))
+      exit (EXIT_FAILURE);
+}
+
 
 int
 main (int argc, char **argv)
 {
+  open_standard_streams ();
+
   /* initialize */
   /* initialize */
   ctx = preload_context_new();
-- 
2.43.0


From d7c69458d16c2b5e650a9271f2daa538a9fe37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 37/37] fix: accept a state file whose clock passed the limit
 while running

---
 preload-src/src/handling/state_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index cc7b397..24c90e6 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -386,11 +386,13 @@ read_state (GIOChannel *f)
 
       /* Timestamps are compared with each other, and -1 means that an exe is not
        * running: a clock that is below zero, or that gets there by overflowing
-       * while we run, makes all exes count as running */
-      if (time_val < 0 || time_val > G_MAXINT / 2) {
+       * while we run, makes all exes count as running.  what a daemon saved whose
+       * clock was near the limit must still be accepted, though */
+      if (time_val < 0) {
 	rc.errmsg = READ_SYNTAX_ERROR;
 	break;
       }
+      time_val = MIN (time_val, G_MAXINT / 2);
 
       state->last_accounting_timestamp = state->time = time_val;
     }
-- 
2.43.0

