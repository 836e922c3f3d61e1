From c4ef6a3b50c1c0e86dc8fcc76ca4926ef775fe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 01/66] fix: evaluate every operand of and{} conditions

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index f1c045e..9fe9321 100644
--- a/node_if.c
+++ b/node_if.c
@@ -65,7 +65,7 @@ static bool _if_OR_eval(struct node *n, struct node *mn) {
 }
 
 static bool _if_AND_eval(struct node *n, struct node *mn) {
-  for (struct node *nn = mn->child; nn; nn = nn->child) {
+  for (struct node *nn = mn->child; nn; nn = nn->next) {
     if (!_if_cond_eval(n, nn)) {
       return false;
     }
-- 
2.43.0


From a9d377c6483df1399e987e4f205a14909effc103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 02/66] fix: check every variable listed in defined{}

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index 9fe9321..882d1f0 100644
--- a/node_if.c
+++ b/node_if.c
@@ -9,7 +9,7 @@
 static bool _if_defined_eval(struct node *mn) {
   struct node *n = mn->parent;
   for (struct node *nn = mn->child; nn; nn = nn->next) {
-    const char *val = node_value(mn->child);
+    const char *val = node_value(nn);
     if (val && *val != '\0' && node_env_get(n, val)) {
       return true;
     }
-- 
2.43.0


From a141dbd7015b6f28f9ed5ee14bd82c0e0764a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 03/66] fix: lists with more than one element are always truthy

---
 node_if.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_if.c b/node_if.c
index 882d1f0..a9fd3fe 100644
--- a/node_if.c
+++ b/node_if.c
@@ -110,8 +110,8 @@ static bool _if_cond_eval(struct node *n, struct node *mn) {
     if (is_vlist(op)) {
       struct vlist_iter iter;
       vlist_iter_init(op, &iter);
-      if (vlist_iter_next(&iter) && !(iter.len == 1 && iter.item[0] == '0')) {
-        eq = iter.len > 0 || vlist_iter_next(&iter);
+      if (vlist_iter_next(&iter)) {
+        eq = !(iter.len == 1 && iter.item[0] == '0') || vlist_iter_next(&iter);
       }
     } else {
       eq = (op && *op != '\0' && !(op[0] == '0' && op[1] == '\0'));
-- 
2.43.0


From ee7c9029117137f4c741b250971899a94786fe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 04/66] fix: use the given extension in %{PATH EXT}

---
 node_basename.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1425fd6..1fa1ee5 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -23,7 +23,7 @@ static const char* _basename_value(struct node *n) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Argument is not set");
   }
   if (n->child->next) {
-    replace_ext = node_value(n->child);
+    replace_ext = node_value(n->child->next);
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-- 
2.43.0


From 10f1ade778545f0204d59763fcd8a47ed084776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 05/66] fix: initialize the list iterator in configure{}

---
 node_configure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node_configure.c b/node_configure.c
index 5c3936b..952d642 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -300,6 +300,7 @@ static void _configure_setup(struct node *n) {
     const char *v = node_value(nn);
     if (is_vlist(v)) {
       struct vlist_iter iter;
+      vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
         char buf[iter.len + 1];
         memcpy(buf, iter.item, iter.len);
-- 
2.43.0


From 2722c8dc31181417ee01cf1028bdf10364e98f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 06/66] fix: do not use the error{} message as a format string

---
 node_error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_error.c b/node_error.c
index 5635d6d..28bf380 100644
--- a/node_error.c
+++ b/node_error.c
@@ -14,7 +14,7 @@ static void _error_setup(struct node *n) {
       xstr_cat(xstr, node_value(nn));
     }
   }
-  node_fatal(AK_ERROR_FAIL, n, xstr_ptr(xstr));
+  node_fatal(AK_ERROR_FAIL, n, "%s", xstr_ptr(xstr));
 }
 
 int node_error_setup(struct node *n) {
-- 
2.43.0


From 12eb6f6feaf37a7c1121b6d38d8ef7a06ec02e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 07/66] fix: read the whole output of a finished program

---
 spawn.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spawn.c b/spawn.c
index aa25837..7c729d8 100644
--- a/spawn.c
+++ b/spawn.c
@@ -412,13 +412,12 @@ int spawn_do(struct spawn *s) {
               } else {
                 s->stderr_handler(buf, n, s);
               }
-            } else if (n == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
+            } else if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
               close(fds[i].fd);
               fds[i].fd = -1;
               --c;
             }
-          }
-          if (revents & (POLLERR | POLLHUP | POLLNVAL)) {
+          } else if (revents & (POLLERR | POLLHUP | POLLNVAL)) { // Hang up only when all output has been read
             close(fds[i].fd);
             fds[i].fd = -1;
             --c;
-- 
2.43.0


From 57063d5cea680261196c2b6a10793b585507ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 08/66] fix: report a compiler which cannot be started as a
 failed compilation

---
 node_cc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node_cc.c b/node_cc.c
index 53672aa..5298432 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -157,7 +157,6 @@ static void _cc_on_build_source(
 
   int rc = spawn_do(s);
   if (rc) {
-    spawn_destroy(s);
     node_error(rc, ctx->n, "%s", ctx->cc);
     return;
   }
@@ -247,6 +246,10 @@ static void _cc_on_resolve(struct node_resolve *r) {
       ++i;
     }
 
+    if (tasks.num == 0) { // None of compilers was started
+      continue;
+    }
+
     int wstatus = 0;
     pid_t pid = wait(&wstatus);
     if (pid == -1) {
-- 
2.43.0


From cc9953b3789edfb90fb7671ccbb6f7a6036e1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 09/66] fix: bring generated sources up to date before
 compiling them

---
 node_cc.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index 5298432..65ee82c 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -335,13 +335,11 @@ static void _cc_build(struct node *n) {
 
   for (int i = 0; i < ctx->sources.num; ++i) {
     const char *src = *(char**) ulist_get(&ctx->sources, i);
-    if (!path_is_exist(src)) {
-      struct node *pn = node_by_product_raw(n, src);
-      if (pn) {
-        node_build(pn);
-      } else {
-        node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
-      }
+    struct node *pn = node_by_product_raw(n, src);
+    if (pn) {
+      node_build(pn);
+    } else if (!path_is_exist(src)) {
+      node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
     }
   }
 
-- 
2.43.0


From 8ab2e0df1faf5c8a6e11433e2bfcedff9dbddaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 10/66] fix: track every file included by a compiled source

---
 node_cc.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index 65ee82c..58ab39a 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -32,15 +32,8 @@ struct _cc_ctx {
 };
 
 static void _cc_deps_MMD_item_add(const char *item, struct node *n, struct deps *deps, const char *src) {
-  char buf[127];
-  char *p = strrchr(item, '.');
-  if (!p || p[1] == '\0') {
-    return;
-  }
-  ++p;
-  char *ext = utils_strncpy(buf, p, sizeof(buf));
-  if (*ext == 'c' || *ext == 'C' || *ext == 'm') {
-    // Skip source files
+  if (strcmp(item, src) == 0) {
+    // Skip the source file itself
     return;
   }
   deps_add_alias(deps, 's', src, item);
-- 
2.43.0


From 00747c2853c4a4cdbc8963c6bad2d96b952cd1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 11/66] fix: refuse to use the project root as its cache dir

---
 autark_core.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index d0d23c2..3843e2b 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -382,8 +382,9 @@ void autark_build_prepare(const char *script_path) {
     akfatal(errno, "Failed to resolve project CACHE dir: %s", g_env.project.cache_dir);
   }
 
-  if (path_is_prefix_for(g_env.project.cache_dir, g_env.project.root_dir, 0)) {
-    akfatal(AK_ERROR_FAIL, "Project cache dir cannot be parent of project root dir", 0);
+  if (  strcmp(g_env.project.cache_dir, g_env.project.root_dir) == 0
+     || path_is_prefix_for(g_env.project.cache_dir, g_env.project.root_dir, 0)) {
+    akfatal(AK_ERROR_FAIL, "Project cache dir cannot be project root dir or its parent", 0);
   }
 
   if (g_env.project.cleanup) {
-- 
2.43.0


From d5bb8fd91ab3cf5a3aaaecd99e6d4df97f170920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 12/66] fix: normalize every absolute path

---
 paths.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/paths.c b/paths.c
index 83fc220..3842e9d 100644
--- a/paths.c
+++ b/paths.c
@@ -83,11 +83,6 @@ char* path_normalize_cwd(const char *path, const char *cwd, char buf[PATH_MAX])
   akassert(cwd);
   if (path[0] == '/') {
     utils_strncpy(buf, path, PATH_MAX);
-    char *p = strchr(buf, '.');
-    if (  p == 0
-       || !(*(p - 1) == '/' && (p[1] == '/' || p[1] == '.' || p[1] == '\0'))) {
-      return buf;
-    }
   } else {
     utils_strncpy(buf, cwd, PATH_MAX);
     size_t len = strlen(buf);
-- 
2.43.0


From ccea2cb25f0b696d5488307801219f0f831dd1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 13/66] fix: do not recurse infinitely when let{} refers to
 itself

---
 node_set.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_set.c b/node_set.c
index ebd28ab..11e3f20 100644
--- a/node_set.c
+++ b/node_set.c
@@ -79,8 +79,8 @@ static void _set_build(struct node *n) {
 }
 
 static const char* _set_value_get(struct node *n) {
-  if (n->recur_next.active && n->recur_next.n) {
-    return _set_value_get(n->recur_next.n);
+  if (n->recur_next.active) { // Refers to itself, use the previous definition
+    return n->recur_next.n ? _set_value_get(n->recur_next.n) : 0;
   }
   n->recur_next.active = true;
 
-- 
2.43.0


From 92fbb32063152108a13435006c2b94419be12c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 14/66] fix: let set{} see values defined by options and check
 scripts

---
 node_set.c | 7 ++++++-
 script.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/node_set.c b/node_set.c
index 11e3f20..971533a 100644
--- a/node_set.c
+++ b/node_set.c
@@ -45,6 +45,11 @@ static void _set_init_impl(struct node *n) {
   struct node *nn = unit_env_get_node(unit, key, &tag);
   if (nn && nn != n) {
     n->recur_next.n = nn;
+  } else if (!nn) { // Previous plain value, eg: build option or variable set by check script
+    const char *val = unit_env_get_raw(unit, key);
+    if (val) {
+      n->recur_next.val = pool_strdup(g_env.pool, val);
+    }
   }
   unit_env_set_node(unit, key, n, 0);
 }
@@ -80,7 +85,7 @@ static void _set_build(struct node *n) {
 
 static const char* _set_value_get(struct node *n) {
   if (n->recur_next.active) { // Refers to itself, use the previous definition
-    return n->recur_next.n ? _set_value_get(n->recur_next.n) : 0;
+    return n->recur_next.n ? _set_value_get(n->recur_next.n) : n->recur_next.val;
   }
   n->recur_next.active = true;
 
diff --git a/script.h b/script.h
index b41c80c..03e59c9 100644
--- a/script.h
+++ b/script.h
@@ -86,6 +86,7 @@ struct node {
   // Recursive set
   struct {
     struct node *n;
+    const char  *val;
     bool active;
   } recur_next;
 
-- 
2.43.0


From bbac94517cf1c7f76c3d621faaa06a944e0043d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 15/66] fix: take literals starting with dots as plain values
 in set{}

---
 node_set.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node_set.c b/node_set.c
index 971533a..cb8a998 100644
--- a/node_set.c
+++ b/node_set.c
@@ -15,6 +15,10 @@ static void _set_dispose(struct node *n) {
   n->impl = 0;
 }
 
+static inline bool _set_is_spread(struct node *n) {
+  return n->type != NODE_TYPE_VALUE && n->value[0] == '.' && n->value[1] == '.';
+}
+
 static bool _set_is_let(struct node *n) {
   return strcmp(n->value, "let") == 0;
 }
@@ -114,7 +118,7 @@ static const char* _set_value_get(struct node *n) {
     return n->impl;
   }
 
-  if (!nn->next && nn->value[0] != '.') { // Single value
+  if (!nn->next && !_set_is_spread(nn)) { // Single value
     const char *v = node_value(nn);
     n->impl = xstrdup(v);
     n->recur_next.active = false;
@@ -127,7 +131,7 @@ static const char* _set_value_get(struct node *n) {
     if (!v) {
       v = "";
     }
-    if (nn->value[0] == '.' && nn->value[1] == '.') {
+    if (_set_is_spread(nn)) {
       utils_split_values_add(v, xstr);
     } else {
       if (!is_vlist(v)) {
-- 
2.43.0


From 4ebb174bbd8a70a7665a2e8c16fa4c8f566a4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 16/66] fix: keep negation of conditions used in macros

---
 script.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script.c b/script.c
index 1858c2f..74dbc63 100644
--- a/script.c
+++ b/script.c
@@ -219,7 +219,7 @@ struct node* node_clone_and_register(struct node *n_) {
   struct xnode *n = (struct xnode*) n_;
   struct xnode *x = pool_calloc(g_env.pool, sizeof(*x));
   *x = *n;
-  x->base.flags = 0;
+  x->base.flags = n_->flags & NODE_FLG_NEGATE;
   x->base.child = 0;
   x->base.next = 0;
   x->base.parent = 0;
-- 
2.43.0


From 607f4eb69ba4e9ab4b5ecd59ba5a260e3b4a7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 17/66] fix: pass rules with their bodies as macro arguments

---
 node_call.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/node_call.c b/node_call.c
index 57cf65b..c8e22be 100644
--- a/node_call.c
+++ b/node_call.c
@@ -38,9 +38,25 @@ struct node* call_first_node(struct node *n) {
   }
 }
 
+static void _call_arg_children_clone(struct node *arg, struct node *parent) {
+  struct node *last = 0;
+  for (struct node *c = arg->child; c; c = c->next) {
+    struct node *nn = node_clone_and_register(c);
+    nn->parent = parent;
+    if (last) {
+      last->next = nn;
+    } else {
+      parent->child = nn;
+    }
+    last = nn;
+    _call_arg_children_clone(c, nn);
+  }
+}
+
 static int _call_macro_visit(struct node *n, int lvl, void *d) {
   struct _call *call = d;
   int ret = 0;
+  bool is_arg = false;
 
   if (call->mn == n /*skip macro itself */ || call->mn->child == n /* skip macro name */) {
     return 0;
@@ -69,6 +85,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
       idx = call->arg_idx;
     }
     call->arg_idx = idx;
+    is_arg = true;
     n = call->args[idx];
     if (!n) {
       node_fatal(rc, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
@@ -94,6 +111,9 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
     c->next = nn;
   }
   ulist_push(&call->nodes, &nn);
+  if (is_arg) {
+    _call_arg_children_clone(n, nn);
+  }
   return ret;
 }
 
-- 
2.43.0


From bd6cf7175340c66805ffa8893289ed2f97307386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 18/66] fix: evaluate @{} for every item of foreach{}

---
 node_subst.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/node_subst.c b/node_subst.c
index 58133b8..d01205b 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -70,7 +70,27 @@ static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   fprintf(stdout, "%s", buf);
 }
 
+// Checks if the command depends on a variable of the enclosing `foreach`
+static bool _subst_is_foreach_dependent(struct node *n, struct node_foreach *fe) {
+  if (!fe) {
+    return false;
+  }
+  int access_cnt = fe->access_cnt;
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    node_value(nn);
+  }
+  return fe->access_cnt != access_cnt;
+}
+
 static const char* _subst_value_proc(struct node *n) {
+  struct node_foreach *fe = node_find_parent_foreach(n);
+  if (_subst_is_foreach_dependent(n, fe)) {
+    free(n->impl);
+    n->impl = 0;
+    if (!fe->value) { // No current item
+      return "";
+    }
+  }
   if (n->impl) {
     return n->impl;
   }
@@ -136,6 +156,9 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
 }
 
 static const char* _subst_value_proc_cache(struct node *n) {
+  if (_subst_is_foreach_dependent(n, node_find_parent_foreach(n))) {
+    return _subst_value_proc(n);
+  }
   if (n->impl) {
     return n->impl;
   }
-- 
2.43.0


From d2c7084b64d740e91e95ad2d1f0e425cc6bedc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 19/66] fix: invalidate cached @@{} output when its arguments
 change

---
 node_subst.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node_subst.c b/node_subst.c
index d01205b..3d3c37f 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -151,6 +151,15 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
     node_fatal(rc, n, "Failed to open dependency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    if (val) {
+      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
+    }
+  }
+
   deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
   deps_close(&deps);
 }
-- 
2.43.0


From 4fa902568d779da50b6b093eee01e03a19793ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 20/66] fix: forget the previous result of a rule before
 running it again

---
 script.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/script.c b/script.c
index 74dbc63..48e7908 100644
--- a/script.c
+++ b/script.c
@@ -1178,6 +1178,8 @@ void node_resolve(struct node_resolve *r) {
     if (g_env.check.log && r->n) {
       xstr_printf(g_env.check.log, "%s: resolved outdated outdated=%d\n", r->n->name, r->resolve_outdated.num);
     }
+    // If we fail or will be interrupted, results of the previous successful run are no longer actual
+    unlink(deps_path);
     r->on_resolve(r);
     if (access(deps_path_tmp, F_OK) == 0) {
       rc = utils_rename_file(deps_path_tmp, deps_path);
-- 
2.43.0


From a453752bdf54ddfc8ff1459a409bb3f5ad226ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 21/66] fix: drop variables which a check script no longer sets

---
 script.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/script.c b/script.c
index 48e7908..076a3cb 100644
--- a/script.c
+++ b/script.c
@@ -1180,13 +1180,10 @@ void node_resolve(struct node_resolve *r) {
     }
     // If we fail or will be interrupted, results of the previous successful run are no longer actual
     unlink(deps_path);
-    r->on_resolve(r);
-    if (access(deps_path_tmp, F_OK) == 0) {
-      rc = utils_rename_file(deps_path_tmp, deps_path);
-      if (rc) {
-        akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
-      }
+    if (r->on_env_value) {
+      unlink(env_path);
     }
+    r->on_resolve(r);
     if (r->on_env_value && !access(env_path_tmp, F_OK)) {
       rc = utils_rename_file(env_path_tmp, env_path);
       if (rc) {
@@ -1194,6 +1191,12 @@ void node_resolve(struct node_resolve *r) {
       }
       env_created = true;
     }
+    if (access(deps_path_tmp, F_OK) == 0) {
+      rc = utils_rename_file(deps_path_tmp, deps_path);
+      if (rc) {
+        akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
+      }
+    }
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-- 
2.43.0


From dd9ff10654d505fd8a85cae5b3e4ef35e7eceb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 22/66] fix: re-run checks when their script or arguments
 change

---
 node_check.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/node_check.c b/node_check.c
index 8c9856a..d196127 100644
--- a/node_check.c
+++ b/node_check.c
@@ -61,6 +61,14 @@ static void _check_on_resolve(struct node_resolve *r) {
     node_fatal(rc, unit->n, "Failed to open depencency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
+  for (int i = 0; i < r->node_val_deps.num; ++i) {
+    struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, i);
+    const char *val = node_value(nv);
+    if (val) {
+      deps_add(&deps, DEPS_TYPE_NODE_VALUE, 0, val, i);
+    }
+  }
   deps_close(&deps);
 }
 
@@ -103,8 +111,15 @@ static void _check_script(struct node *n) {
     .user_data = unit,
     .on_env_value = _check_on_env_value,
     .on_resolve = _check_on_resolve,
+    .node_val_deps = { .usize = sizeof(struct node*) },
   };
 
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&nr.node_val_deps, &nn);
+    }
+  }
+
   node_resolve(&nr);
 
   unit_pop();
-- 
2.43.0


From 7fe1b9ace79a03b45a810891826df4c5015122b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 23/66] fix: keep tracking variables of all files in
 configure{}

---
 node_configure.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 952d642..98eae83 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -123,6 +123,37 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
   return xstr_destroy_keep_ptr(xstr);
 }
 
+// Registers variables used by the source file
+static void _scan_file(struct node *n, const char *src, struct deps *deps) {
+  FILE *f = fopen(src, "r");
+  if (!f) {
+    node_fatal(errno, n, "Failed to open file: %s", src);
+  }
+  char *line;
+  char buf[16384];
+  while ((line = fgets(buf, sizeof(buf), f))) {
+    char *rl;
+    if (utils_startswith(line, "//autarkdef ")) {
+      rl = _line_replace_def(n, deps, line);
+    } else {
+      rl = _line_replace_subs(n, deps, line);
+    }
+    if (rl != line) {
+      free(rl);
+    }
+  }
+  fclose(f);
+}
+
+static bool _is_listed(struct ulist *list, const char *path) {
+  for (int i = 0; i < list->num; ++i) {
+    if (strcmp(*(char**) ulist_get(list, i), path) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 static void _process_file(struct node *n, const char *src, const char *tgt, struct deps *deps) {
   struct xstr *xstr = 0;
   if (strcmp(src, tgt) == 0) {
@@ -211,10 +242,14 @@ static void _configure_on_resolve(struct node_resolve *r) {
     }
   }
 
-  for (int i = 0; i < slist->num; ++i) {
+  for (int i = 0; i < ctx->sources.num; ++i) {
     char buf[PATH_MAX];
-    char *tgt, *src = *(char**) ulist_get(slist, i);
+    char *tgt, *src = *(char**) ulist_get(&ctx->sources, i);
     src = path_normalize_cwd(src, unit->cache_dir, buf);
+    if (slist == &rlist && !_is_listed(&rlist, src)) { // File is up to date
+      _scan_file(n, src, &deps);
+      continue;
+    }
     bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
     if (!incache) {
       tgt = path_relativize_cwd(unit->dir, src, unit->dir);
-- 
2.43.0


From 05cd5a0a94fb7da7439bb42613ed452fbce17d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 24/66] fix: do not duplicate the text before a trailing @ in
 configure{}

---
 node_configure.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 98eae83..5611bec 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -80,6 +80,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
   do {
     xstr_cat2(xstr, s, sp - s);
     xstr_clear(kstr);
+    s = sp;
     char *p = ++sp;
     sp = 0;
 
@@ -112,12 +113,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
     }
   } while (sp);
 
-  if (xstr_size(kstr)) {
-    xstr_cat2(xstr, "@", 1);
-    xstr_cat(xstr, xstr_ptr(kstr));
-  } else {
-    xstr_cat(xstr, s);
-  }
+  xstr_cat(xstr, s);
   xstr_destroy(kstr);
 
   return xstr_destroy_keep_ptr(xstr);
-- 
2.43.0


From 4f8fb7c892a5b3dc281b2948de941474dc0006f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 25/66] fix: tell undefined variables from empty ones in
 configure{}

---
 deps.c           | 3 +++
 deps.h           | 2 ++
 node_configure.c | 8 ++++----
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/deps.c b/deps.c
index 764cec4..998e4da 100644
--- a/deps.c
+++ b/deps.c
@@ -99,6 +99,9 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
       }
       case DEPS_TYPE_ENV: {
         const char *val = unit_env_get(n, d->alias);
+        if ((d->flags == DEPS_FLG_UNDEFINED) != (val == 0)) {
+          return true;
+        }
         if (!val) {
           val = "";
         }
diff --git a/deps.h b/deps.h
index e69a101..e9521c7 100644
--- a/deps.h
+++ b/deps.h
@@ -20,6 +20,8 @@
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
 
+#define DEPS_FLG_UNDEFINED 'u' // Variable was not defined
+
 #define DEPS_BUF_SZ 262144
 
 struct deps {
diff --git a/node_configure.c b/node_configure.c
index 5611bec..27573e3 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -35,7 +35,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   if (*np == '\"') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
@@ -44,7 +44,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   } else if (*np >= '0' && *np <= '9') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s %s", key, np);
@@ -57,7 +57,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   } else {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s\n", key);
@@ -89,7 +89,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
         const char *key = xstr_ptr(kstr);
         const char *val = node_env_get(n, key);
 
-        deps_add_env(deps, 0, key, val ? val : "");
+        deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
 
         if (val && *val != '\0') {
           if (is_vlist(val)) {
-- 
2.43.0


From d8b52371c354efa0cf6de4358d39ab80d7660edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 26/66] fix: re-run foreach{} when its list of items changes

---
 node_run.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node_run.c b/node_run.c
index 77cb040..72fb9a3 100644
--- a/node_run.c
+++ b/node_run.c
@@ -339,6 +339,14 @@ static void _run_build(struct node *n) {
     }
   }
 
+  if (ctx.fe) { // List of items
+    struct node *nn = node_find_parent_of_type(n, NODE_TYPE_FOREACH);
+    nn = nn->child->next;
+    if (node_is_value_may_be_dep_saved(nn)) {
+      ulist_push(&r.node_val_deps, &nn);
+    }
+  }
+
   node_resolve(&r);
   ulist_destroy_keep(&ctx.consumes);
   ulist_destroy_keep(&ctx.consumes_foreach);
-- 
2.43.0


From db110b48e7582d39467ce01cf48ba2e307fae536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 27/66] fix: recompile when the default compiler is changed

---
 node_cc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node_cc.c b/node_cc.c
index 58ab39a..b2df749 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -199,6 +199,12 @@ static void _cc_on_resolve(struct node_resolve *r) {
     }
   }
 
+  if (!ctx->n_cc) { // Default compiler
+    const char *key = strcmp(ctx->n->value, "cc") == 0 ? "CC" : "CXX";
+    const char *val = node_env_get(ctx->n, key);
+    deps_add_env(&deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
+  }
+
   for (int i = 0; i < ctx->consumes.num; ++i) {
     const char *path = *(const char**) ulist_get(&ctx->consumes, i);
     deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
-- 
2.43.0


From 5ef7ac68330c4b4d5ab179a9c2cd0cf31f297299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 28/66] fix: do not take a deps record of another rule as own

---
 deps.h   |  1 +
 script.c | 39 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/deps.h b/deps.h
index e9521c7..bf87d23 100644
--- a/deps.h
+++ b/deps.h
@@ -16,6 +16,7 @@
 #define DEPS_TYPE_SYS_ENV       115 // s
 #define DEPS_TYPE_ALIAS         97  // a
 #define DEPS_TYPE_OUTDATED      120 // o
+#define DEPS_TYPE_NODE_ID       105 // i
 
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
diff --git a/script.c b/script.c
index 076a3cb..3070d5e 100644
--- a/script.c
+++ b/script.c
@@ -1105,6 +1105,26 @@ void node_add_unit_deps(struct node *n, struct deps *deps) {
   }
 }
 
+static uint64_t _node_hash(struct node *n, uint64_t hash) {
+  const char *sep = n->child ? "{" : " ";
+  for (const char *p = n->value; p && *p; ++p) {
+    hash = (hash ^ (unsigned char) *p) * 0x100000001b3ULL;
+  }
+  hash = (hash ^ (unsigned char) *sep) * 0x100000001b3ULL;
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    hash = _node_hash(nn, hash);
+  }
+  return (hash ^ (unsigned char) '}') * 0x100000001b3ULL;
+}
+
+// Node identity. Since node index used as its deps file name depends on the all nodes
+// created before, an existing deps file may belong to some other node.
+static char* _node_id(struct pool *pool, struct node *n) {
+  struct node *fe = node_find_parent_of_type(n, NODE_TYPE_FOREACH);
+  return pool_printf(pool, "%s:%llx", _node_file(n),
+                     (unsigned long long) _node_hash(fe ? fe : n, 0xcbf29ce484222325ULL));
+}
+
 void node_resolve(struct node_resolve *r) {
   akassert(r && r->path && r->n);
 
@@ -1132,13 +1152,18 @@ void node_resolve(struct node_resolve *r) {
     r->on_init(r);
   }
 
+  char *node_id = _node_id(pool, r->n);
+
   if (!r->force_outdated && !deps_open(deps_path, DEPS_OPEN_READONLY, &deps)) {
     char *prev_outdated = 0;
+    bool identified = false;
     while (deps_cur_next(&deps)) {
       ++r->num_deps;
 
       bool outdated = false;
-      if (prev_outdated && strcmp(prev_outdated, deps.resource) == 0) {
+      if (deps.type == DEPS_TYPE_NODE_ID) {
+        identified = strcmp(node_id, deps.resource) == 0;
+      } else if (prev_outdated && strcmp(prev_outdated, deps.resource) == 0) {
         outdated = false;
       } else if (deps.type == DEPS_TYPE_NODE_VALUE) {
         if (deps.serial >= 0 && deps.serial < r->node_val_deps.num) {
@@ -1167,6 +1192,12 @@ void node_resolve(struct node_resolve *r) {
         });
       }
     }
+    if (r->num_deps && !identified) {
+      ulist_push(&r->resolve_outdated, &(struct resolve_outdated) {
+        .type = DEPS_TYPE_NODE_ID,
+        .path = node_id
+      });
+    }
   }
 
   if (deps.file) {
@@ -1192,6 +1223,12 @@ void node_resolve(struct node_resolve *r) {
       env_created = true;
     }
     if (access(deps_path_tmp, F_OK) == 0) {
+      rc = deps_open(deps_path_tmp, 0, &deps);
+      if (rc) {
+        akfatal(rc, "Failed to open dependency file: %s", deps_path_tmp);
+      }
+      deps_add(&deps, DEPS_TYPE_NODE_ID, 0, node_id, 0);
+      deps_close(&deps);
       rc = utils_rename_file(deps_path_tmp, deps_path);
       if (rc) {
         akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
-- 
2.43.0


From d78c69637baea9ece4b110f0f73e3c06d81f5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 29/66] fix: rebuild products which were removed or overwritten
 by another rule

---
 deps.c   |  9 +++++++--
 deps.h   |  1 +
 script.c | 11 +++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/deps.c b/deps.c
index 998e4da..73d9862 100644
--- a/deps.c
+++ b/deps.c
@@ -64,7 +64,8 @@ bool deps_cur_next(struct deps *d) {
 
     if (ls) {
       *ls = '\0';
-      if (d->type == DEPS_TYPE_FILE || d->type == DEPS_TYPE_NODE_VALUE || d->type == DEPS_TYPE_ALIAS) {
+      if (  d->type == DEPS_TYPE_FILE || d->type == DEPS_TYPE_NODE_VALUE || d->type == DEPS_TYPE_ALIAS
+         || d->type == DEPS_TYPE_PRODUCT) {
         ++ls;
         d->serial = utils_strtoll(ls, 10, &rc);
         if (rc) {
@@ -90,6 +91,10 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
         }
         break;
       }
+      case DEPS_TYPE_PRODUCT: { // Removed or overwritten by someone else
+        struct akpath_stat st;
+        return path_stat(d->resource, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime != d->serial;
+      }
       case DEPS_TYPE_ALIAS: {
         struct akpath_stat st;
         if (path_stat(d->alias, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime > d->serial) {
@@ -129,7 +134,7 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
   if (flags == 0) {
     flags = ' ';
   }
-  if (type == DEPS_TYPE_FILE) {
+  if (type == DEPS_TYPE_FILE || type == DEPS_TYPE_PRODUCT) {
     path_normalize(resource, buf[0]);
     resource = buf[0];
     struct akpath_stat st;
diff --git a/deps.h b/deps.h
index bf87d23..9efa6b2 100644
--- a/deps.h
+++ b/deps.h
@@ -17,6 +17,7 @@
 #define DEPS_TYPE_ALIAS         97  // a
 #define DEPS_TYPE_OUTDATED      120 // o
 #define DEPS_TYPE_NODE_ID       105 // i
+#define DEPS_TYPE_PRODUCT       112 // p
 
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
diff --git a/script.c b/script.c
index 3070d5e..3451a8d 100644
--- a/script.c
+++ b/script.c
@@ -1125,6 +1125,16 @@ static char* _node_id(struct pool *pool, struct node *n) {
                      (unsigned long long) _node_hash(fe ? fe : n, 0xcbf29ce484222325ULL));
 }
 
+static void _node_add_product_deps(struct node *n, struct deps *deps) {
+  struct map_iter iter;
+  map_iter_init(n->ctx->products, &iter);
+  while (map_iter_next(&iter)) {
+    if (iter.val == n && path_is_exist(iter.key)) {
+      deps_add(deps, DEPS_TYPE_PRODUCT, 0, iter.key, 0);
+    }
+  }
+}
+
 void node_resolve(struct node_resolve *r) {
   akassert(r && r->path && r->n);
 
@@ -1227,6 +1237,7 @@ void node_resolve(struct node_resolve *r) {
       if (rc) {
         akfatal(rc, "Failed to open dependency file: %s", deps_path_tmp);
       }
+      _node_add_product_deps(r->n, &deps);
       deps_add(&deps, DEPS_TYPE_NODE_ID, 0, node_id, 0);
       deps_close(&deps);
       rc = utils_rename_file(deps_path_tmp, deps_path);
-- 
2.43.0


From 52e1d147add3808827f0f89d084ceee384ded0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 30/66] fix: registering let{} again must not make its
 definitions cyclic

---
 node_set.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/node_set.c b/node_set.c
index cb8a998..5ce1a36 100644
--- a/node_set.c
+++ b/node_set.c
@@ -38,6 +38,16 @@ static struct unit* _unit_for_set(struct node *n, struct node *nn, const char **
   return unit_peek();
 }
 
+// Checks if the node is one of previous definitions of the given node
+static bool _set_is_prev_of(struct node *n, struct node *nn) {
+  for ( ; nn && nn->type == NODE_TYPE_SET; nn = nn->recur_next.n) {
+    if (nn == n) {
+      return true;
+    }
+  }
+  return false;
+}
+
 static void _set_init_impl(struct node *n) {
   const char *key = 0;
   struct unit *unit = n->child ? _unit_for_set(n, n->child, &key) : 0;
@@ -47,7 +57,9 @@ static void _set_init_impl(struct node *n) {
   }
   unsigned tag = 0;
   struct node *nn = unit_env_get_node(unit, key, &tag);
-  if (nn && nn != n) {
+  if (nn && _set_is_prev_of(n, nn)) { // Registered again, definitions must not form a cycle
+    ;
+  } else if (nn) {
     n->recur_next.n = nn;
   } else if (!nn) { // Previous plain value, eg: build option or variable set by check script
     const char *val = unit_env_get_raw(unit, key);
-- 
2.43.0


From 8f305cf989105c54b97c875d88690c2acaaeb720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 31/66] fix: previous value of a variable may be given by
 library{}

---
 node_set.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node_set.c b/node_set.c
index 5ce1a36..f157216 100644
--- a/node_set.c
+++ b/node_set.c
@@ -101,7 +101,11 @@ static void _set_build(struct node *n) {
 
 static const char* _set_value_get(struct node *n) {
   if (n->recur_next.active) { // Refers to itself, use the previous definition
-    return n->recur_next.n ? _set_value_get(n->recur_next.n) : n->recur_next.val;
+    struct node *nn = n->recur_next.n;
+    if (nn) {
+      return nn->type == NODE_TYPE_SET ? _set_value_get(nn) : node_value(nn);
+    }
+    return n->recur_next.val;
   }
   n->recur_next.active = true;
 
-- 
2.43.0


From 61c094e36683adec0cd679dd61e1223df1aa10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 32/66] fix: expand macros at the place of call

---
 node_call.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index c8e22be..e75dfbc 100644
--- a/node_call.c
+++ b/node_call.c
@@ -101,7 +101,16 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
   nn->parent = parent;
 
   // Add node to the parent
-  if (!parent->child) {
+  if (parent == call->n->parent) { // At the place of the call
+    if (call->prev) {
+      nn->next = call->prev->next;
+      call->prev->next = nn;
+    } else {
+      nn->next = parent->child;
+      parent->child = nn;
+    }
+    call->prev = nn;
+  } else if (!parent->child) {
     parent->child = nn;
   } else {
     struct node *c = parent->child;
-- 
2.43.0


From 6f63dd2d531a6794a734d75b2c0e198a104a64a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 33/66] fix: dots in directories are not a file extension in
 %{}

---
 node_basename.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_basename.c b/node_basename.c
index 1fa1ee5..db1db77 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -27,7 +27,7 @@ static const char* _basename_value(struct node *n) {
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-  if (dp) {
+  if (dp && !strchr(dp, '/')) { // Dots in names of directories are not an extension
     xstr_cat2(xstr, val, (dp - val));
   } else {
     xstr_cat(xstr, val);
-- 
2.43.0


From 93d1dc3f52344c3f16193db8c0a033878f0a0080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 34/66] fix: join arguments of S{} SS{} C{} CC{} as path
 segments

---
 node_dir.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/node_dir.c b/node_dir.c
index a39dcee..18e45e9 100644
--- a/node_dir.c
+++ b/node_dir.c
@@ -8,6 +8,15 @@
 #include <unistd.h>
 #endif
 
+static void _dir_add(struct xstr *xstr, const char *v, size_t len) {
+  if (xstr_size(xstr) && len) {
+    if (v[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
+      xstr_cat2(xstr, "/", 1);
+    }
+  }
+  xstr_cat2(xstr, v, len);
+}
+
 static const char* _dir_value(struct node *n) {
   struct node_foreach *fe = node_find_parent_foreach(n);
   if (fe) {
@@ -44,15 +53,10 @@ static const char* _dir_value(struct node *n) {
       struct vlist_iter iter;
       vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
-        if (xstr_size(xstr) && iter.len) {
-          if (iter.item[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
-            xstr_cat2(xstr, "/", 1);
-          }
-        }
-        xstr_cat2(xstr, iter.item, iter.len);
+        _dir_add(xstr, iter.item, iter.len);
       }
-    } else {
-      xstr_cat(xstr, v);
+    } else if (v) {
+      _dir_add(xstr, v, strlen(v));
     }
   }
   if (xstr_size(xstr) == 0) {
-- 
2.43.0


From 13821cfd2d537f4d0d69db68098ce47f1a67709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 35/66] fix: evaluate expressions in let{} every time it is
 accessed

---
 node_basename.c | 3 +--
 node_dir.c      | 3 +--
 node_join.c     | 3 +--
 script.c        | 9 +++++++++
 script.h        | 3 +++
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/node_basename.c b/node_basename.c
index db1db77..fc41626 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -8,8 +8,7 @@
 #endif
 
 static const char* _basename_value(struct node *n) {
-  struct node_foreach *fe = node_find_parent_foreach(n);
-  if (fe) {
+  if (node_is_value_volatile(n)) {
     free(n->impl);
     n->impl = 0;
   }
diff --git a/node_dir.c b/node_dir.c
index 18e45e9..eac7fea 100644
--- a/node_dir.c
+++ b/node_dir.c
@@ -18,8 +18,7 @@ static void _dir_add(struct xstr *xstr, const char *v, size_t len) {
 }
 
 static const char* _dir_value(struct node *n) {
-  struct node_foreach *fe = node_find_parent_foreach(n);
-  if (fe) {
+  if (node_is_value_volatile(n)) {
     free(n->impl);
     n->impl = 0;
   }
diff --git a/node_join.c b/node_join.c
index 27dbca4..92b52ab 100644
--- a/node_join.c
+++ b/node_join.c
@@ -6,8 +6,7 @@
 #endif
 
 static const char* _join_value(struct node *n) {
-  struct node_foreach *fe = node_find_parent_foreach(n);
-  if (fe) {
+  if (node_is_value_volatile(n)) {
     free(n->impl);
     n->impl = 0;
   }
diff --git a/script.c b/script.c
index 3451a8d..9c4629a 100644
--- a/script.c
+++ b/script.c
@@ -1003,6 +1003,15 @@ struct node_foreach* node_find_parent_foreach(struct node *n) {
   }
 }
 
+bool node_is_value_volatile(struct node *n) {
+  for (struct node *nn = n->parent; nn; nn = nn->parent) {
+    if (nn->type == NODE_TYPE_FOREACH || (nn->type == NODE_TYPE_SET && strcmp(nn->value, "let") == 0)) {
+      return true;
+    }
+  }
+  return false;
+}
+
 bool node_is_value_may_be_dep_saved(struct node *n) {
   if (!n || n->type == NODE_TYPE_VALUE) { // Hardcoded value
     return false;
diff --git a/script.h b/script.h
index 03e59c9..c7a7fdf 100644
--- a/script.h
+++ b/script.h
@@ -159,6 +159,9 @@ struct  node* node_find_parent_of_type(struct node *n, int type);
 
 struct node_foreach* node_find_parent_foreach(struct node *n);
 
+// Node value must not be cached since it is a part of `foreach` or `let`
+bool node_is_value_volatile(struct node *n);
+
 bool node_is_value_may_be_dep_saved(struct node *n);
 
 struct node* node_consumes_resolve(
-- 
2.43.0


From e1eefedd0aa47aefdfb0e01f0a01741baff6bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 36/66] fix: commands of macros called in in-sources{} are
 executed in sources

---
 node_call.c | 6 ++++++
 script.c    | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index e75dfbc..11ba5b5 100644
--- a/node_call.c
+++ b/node_call.c
@@ -175,6 +175,12 @@ static void _call_init(struct node *n) {
   for (int i = call->nn_idx; i < n->ctx->nodes.num; ++i) {
     struct node *nn = *(struct node**) ulist_get(&n->ctx->nodes, i);
     node_bind(nn);
+    if (  (n->flags & NODE_FLG_IN_SRC)
+       && (nn->type == NODE_TYPE_RUN || nn->type == NODE_TYPE_SUBST || nn->type == NODE_TYPE_CALL)) {
+      // Call is a part of `in-sources`
+      nn->flags &= ~NODE_FLG_IN_CACHE;
+      nn->flags |= NODE_FLG_IN_SRC;
+    }
   }
 }
 
diff --git a/script.c b/script.c
index 9c4629a..cbd024f 100644
--- a/script.c
+++ b/script.c
@@ -553,7 +553,8 @@ static int _node_bind(struct node *n) {
 
     switch (n->type) {
       case NODE_TYPE_RUN:
-      case NODE_TYPE_SUBST: {
+      case NODE_TYPE_SUBST:
+      case NODE_TYPE_CALL: {
         struct node *nn = node_find_parent_of_type(n, NODE_TYPE_IN_SOURCES);
         if (nn) {
           if (n->flags & NODE_FLG_IN_CACHE) {
-- 
2.43.0


From 7e958a2f98b608758b06c1039a576e9d0bc4a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 37/66] fix: spread of library{} value

---
 node_find.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node_find.c b/node_find.c
index 0b9ec6d..bb1a332 100644
--- a/node_find.c
+++ b/node_find.c
@@ -91,9 +91,11 @@ static const char* _find_value_get(struct node *n) {
   n->impl = (void*) (intptr_t) -1;
 
   const char *nv = n->value;
+  if (nv[0] == '.' && nv[1] == '.') {
+    nv += 2;
+  }
   while(*nv == '!') ++nv;
 
-
   if (strcmp("library", nv) == 0) {
     _library_find(n);
   }
-- 
2.43.0


From af5dfe9f02b34ad844dcc58abd685ed2d1a198ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 38/66] fix: crashes on values which are not set

---
 node_set.c   | 4 ++--
 node_subst.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_set.c b/node_set.c
index f157216..7f05e6a 100644
--- a/node_set.c
+++ b/node_set.c
@@ -127,7 +127,7 @@ static const char* _set_value_get(struct node *n) {
 
   n->impl = (void*) (uintptr_t) -1;
 
-  struct node *nn = n->child->next;
+  struct node *nn = n->child ? n->child->next : 0;
   if (!nn) {
     n->impl = xstrdup("");
     n->recur_next.active = false;
@@ -136,7 +136,7 @@ static const char* _set_value_get(struct node *n) {
 
   if (!nn->next && !_set_is_spread(nn)) { // Single value
     const char *v = node_value(nn);
-    n->impl = xstrdup(v);
+    n->impl = xstrdup(v ? v : "");
     n->recur_next.active = false;
     return n->impl;
   }
diff --git a/node_subst.c b/node_subst.c
index 3d3c37f..505913c 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -96,7 +96,7 @@ static const char* _subst_value_proc(struct node *n) {
   }
   const char *cmd = node_value(n->child);
   if (cmd == 0 || *cmd == '\0') {
-    return 0;
+    return "";
   }
   struct xstr *xstr = xstr_create_empty();
   struct _subst_ctx ctx = {
-- 
2.43.0


From 04486caaf2196481083c06ecc3af2b4f66837672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:45 +0000
Subject: [PATCH 39/66] fix: crash on an empty command in run{exec{}}

---
 node_run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_run.c b/node_run.c
index 72fb9a3..77295b8 100644
--- a/node_run.c
+++ b/node_run.c
@@ -89,7 +89,7 @@ static void _run_on_resolve_shell(struct node_resolve *r, struct node *nn_) {
 static void _run_on_resolve_exec(struct node_resolve *r, struct node *ncmd) {
   struct node *n = r->n;
   const char *cmd = node_value(ncmd);
-  if (!cmd) {
+  if (!cmd || *cmd == 0) {
     node_fatal(AK_ERROR_FAIL, n, "No run command specified");
   }
 
-- 
2.43.0


From 53a19d718cffbd0c8740ee0c955479cd23f81894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 40/66] fix: spread of S{} SS{} and CC{} must not be taken for
 C{}

---
 node_dir.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/node_dir.c b/node_dir.c
index eac7fea..005a892 100644
--- a/node_dir.c
+++ b/node_dir.c
@@ -32,14 +32,19 @@ static const char* _dir_value(struct node *n) {
   struct xstr *xstr = xstr_create_empty();
   const char *dir = 0;
 
-  if (n->value[0] == 'S') {
-    if (n->value[1] == 'S') {
+  const char *type = n->value;
+  if (type[0] == '.' && type[1] == '.') {
+    type += 2;
+  }
+
+  if (type[0] == 'S') {
+    if (type[1] == 'S') {
       dir = unit->dir;
     } else {
       dir = root->dir;
     }
   } else {
-    if (n->value[1] == 'C') {
+    if (type[1] == 'C') {
       dir = unit->cache_dir;
     } else {
       dir = root->cache_dir;
-- 
2.43.0


From 44c4c7a2581e34abad42200c91d88aabf1cc0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 41/66] fix: crash when the name of foreach variable is given
 by an expression

---
 node_foreach.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_foreach.c b/node_foreach.c
index c178808..5cc9035 100644
--- a/node_foreach.c
+++ b/node_foreach.c
@@ -9,9 +9,9 @@ static void _foreach_setup(struct node *n) {
   if (!n->child) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Foreach must have a variable name as first parameter");
   }
-   struct node_foreach *fe = xcalloc(1, sizeof(*fe));
+  struct node_foreach *fe = xcalloc(1, sizeof(*fe));
+  fe->name = xstrdup(node_value(n->child)); // Variables in the name are not variables of this foreach
   n->impl = fe;
-  fe->name = xstrdup(node_value(n->child));
 
   struct xstr *xstr = xstr_create_empty();
   const char *v = node_value(n->child->next);
-- 
2.43.0


From dbe5b55eb5bca9e87c0a16009aa958ac90d8242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 42/66] fix: use of freed memory when contexts of deeply nested
 rules are left

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 3843e2b..0aa7501 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -195,7 +195,7 @@ void unit_push(struct unit *unit, struct node *n) {
 
 struct unit* unit_pop(void) {
   akassert(g_env.stack_units.num > 0);
-  struct unit_ctx *ctx = (struct unit_ctx*) ulist_get(&g_env.stack_units, g_env.stack_units.num - 1);
+  struct unit_ctx ctx = *(struct unit_ctx*) ulist_get(&g_env.stack_units, g_env.stack_units.num - 1);
   ulist_pop(&g_env.stack_units);
   struct unit_ctx peek = unit_peek_ctx();
   if (peek.unit) {
@@ -204,7 +204,7 @@ struct unit* unit_pop(void) {
   } else {
     unsetenv(AUTARK_UNIT);
   }
-  return ctx->unit;
+  return ctx.unit;
 }
 
 struct unit* unit_peek(void) {
-- 
2.43.0


From 2a4c5e28e3858baea6b9796c42ae051ccc2c0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 43/66] fix: do not write past the parser buffer when reporting
 a syntax error

---
 script.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/script.c b/script.c
index cbd024f..0a32707 100644
--- a/script.c
+++ b/script.c
@@ -14,7 +14,6 @@ static void _yyerror(yycontext *yy) {
   }
   if (yy->__pos < yy->__limit) {
     char buf[2] = { 0 };
-    yy->__buf[yy->__limit] = '\0';
     xstr_cat(xerr, "\n");
     while (yy->__pos < yy->__limit) {
       buf[0] = yy->__buf[yy->__pos++];
-- 
2.43.0


From 11ce622e03bf5a1151361c51e22d46a57346733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 44/66] fix: check the number of placeholders of macros against
 the number of arguments

---
 node_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_call.c b/node_call.c
index 11ba5b5..e8347d5 100644
--- a/node_call.c
+++ b/node_call.c
@@ -74,7 +74,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
 
     if (n->child) {
       idx = utils_strtol(n->child->value, 10, &rc);
-      if (rc || idx < 1 || idx >= MACRO_MAX_ARGS_NUM) {
+      if (rc || idx < 1 || idx > MACRO_MAX_ARGS_NUM) {
         node_fatal(rc, n, "Invalid macro arg index: %d", idx);
         return 0;
       }
@@ -86,7 +86,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
     }
     call->arg_idx = idx;
     is_arg = true;
-    n = call->args[idx];
+    n = idx < MACRO_MAX_ARGS_NUM ? call->args[idx] : 0;
     if (!n) {
       node_fatal(rc, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
       return 0;
-- 
2.43.0


From b2a7e7b9aad4a5944edca9646b1d5147ef3b5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:01 +0000
Subject: [PATCH 45/66] fix: configure used as a name of macro crashed

---
 node_configure.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_configure.c b/node_configure.c
index 27573e3..b8deadc 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -355,7 +355,7 @@ static void _configure_dispose(struct node *n) {
 int node_configure_setup(struct node *n) {
   n->flags |= NODE_FLG_IN_CACHE;
   n->dispose = _configure_dispose;
-  n->init = _configure_init;
+  _configure_init(n);
   n->setup = _configure_setup;
   n->build = _configure_build;
   return 0;
-- 
2.43.0


From 8f18bec6948531be61dda73c7b0b887106f8ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 46/66] fix: rules at the place of the list of foreach crashed

---
 node_foreach.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node_foreach.c b/node_foreach.c
index 5cc9035..654eb66 100644
--- a/node_foreach.c
+++ b/node_foreach.c
@@ -11,6 +11,7 @@ static void _foreach_setup(struct node *n) {
   }
   struct node_foreach *fe = xcalloc(1, sizeof(*fe));
   fe->name = xstrdup(node_value(n->child)); // Variables in the name are not variables of this foreach
+  fe->items = xstrdup(""); // Rules at the place of the list have no items
   n->impl = fe;
 
   struct xstr *xstr = xstr_create_empty();
@@ -21,6 +22,7 @@ static void _foreach_setup(struct node *n) {
   if (!is_vlist(xstr_ptr(xstr))) {
     xstr_unshift(xstr, "\1", 1);
   }
+  free(fe->items);
   fe->items = xstr_destroy_keep_ptr(xstr);
 }
 
-- 
2.43.0


From 434129fb8b273bcebbee436b55aafdd411b0e5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:26 +0000
Subject: [PATCH 47/66] fix: keep long and multiline values of variables set by
 check scripts

---
 autark_core.c | 5 ++++-
 script.c      | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 0aa7501..730353e 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -459,7 +459,10 @@ static void _on_command_set(int argc, const char **argv) {
       if (g_env.verbose) {
         akinfo("autark set %s", kv);
       }
-      fprintf(f, "%s\n", kv);
+      char *line = xstrdup(kv);
+      utils_chars_replace(line, '\n', '\2'); // One line per variable
+      fprintf(f, "%s\n", line);
+      free(line);
     }
   }
   fclose(f);
diff --git a/script.c b/script.c
index 0a32707..d0014ec 100644
--- a/script.c
+++ b/script.c
@@ -1257,10 +1257,11 @@ void node_resolve(struct node_resolve *r) {
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-    char buf[4096];
+    char *buf = 0;
+    size_t bufsz = 0;
     FILE *f = fopen(env_path, "r");
     if (f) {
-      while (fgets(buf, sizeof(buf), f)) {
+      while (getline(&buf, &bufsz, f) > 0) {
         char *p = strchr(buf, '=');
         if (p) {
           *p = '\0';
@@ -1268,9 +1269,11 @@ void node_resolve(struct node_resolve *r) {
           for (int vlen = strlen(val); vlen >= 0 && (val[vlen - 1] == '\n' || val[vlen - 1] == '\r'); --vlen) {
             val[vlen - 1] = '\0';
           }
+          utils_chars_replace(val, '\2', '\n');
           r->on_env_value(r, buf, val);
         }
       }
+      free(buf);
       fclose(f);
     } else {
       akfatal(rc, "Failed to open env file: %s", env_path);
-- 
2.43.0


From 9a1012fe4eea294a9d6286fd810b2ef038a44496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 48/66] fix: templates with lines longer than 16383 bytes were
 processed wrong

---
 node_configure.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index b8deadc..ee3842a 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -125,9 +125,9 @@ static void _scan_file(struct node *n, const char *src, struct deps *deps) {
   if (!f) {
     node_fatal(errno, n, "Failed to open file: %s", src);
   }
-  char *line;
-  char buf[16384];
-  while ((line = fgets(buf, sizeof(buf), f))) {
+  char *line = 0;
+  size_t line_sz = 0;
+  while (getline(&line, &line_sz, f) > 0) {
     char *rl;
     if (utils_startswith(line, "//autarkdef ")) {
       rl = _line_replace_def(n, deps, line);
@@ -138,6 +138,7 @@ static void _scan_file(struct node *n, const char *src, struct deps *deps) {
       free(rl);
     }
   }
+  free(line);
   fclose(f);
 }
 
@@ -170,10 +171,10 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
   }
 
-  char *line;
-  char buf[16384];
+  char *line = 0;
+  size_t line_sz = 0;
 
-  while ((line = fgets(buf, sizeof(buf), f))) {
+  while (getline(&line, &line_sz, f) > 0) {
     char *rl;
     if (utils_startswith(line, "//autarkdef ")) {
       rl = _line_replace_def(n, deps, line);
@@ -187,6 +188,7 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
       free(rl);
     }
   }
+  free(line);
 
   // Transfer file permissions
   struct stat st;
-- 
2.43.0


From 52cd24246efdf188ea6a222b523cbaf767474cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 49/66] fix: inputs of foreach commands derived from the item
 were not resolved for every item

---
 node_run.c | 185 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 136 insertions(+), 49 deletions(-)

diff --git a/node_run.c b/node_run.c
index 77295b8..a3965b8 100644
--- a/node_run.c
+++ b/node_run.c
@@ -25,11 +25,20 @@ static void _run_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
   fprintf(stderr, "%s", buf);
 }
 
+// Path consumed on behalf of a foreach item
+struct _run_foreach_path {
+  char *path;
+  int item;  // Index of foreach item
+  bool self; // Path is the item itself
+};
+
 struct _run_on_resolve_ctx {
   struct node_resolve *r;
   struct node_foreach *fe;
   struct ulist consumes;         // sizeof(char*)
-  struct ulist consumes_foreach; // sizeof(char*)
+  struct ulist consumes_foreach; // struct _run_foreach_path
+  struct ulist items;            // sizeof(char*), foreach items
+  struct _run_foreach_path *cur; // Path is being resolved
   bool fe_consumed;              // Foreach variable is consumed
 };
 
@@ -135,46 +144,59 @@ static void _run_on_resolve_do(struct node_resolve *r, struct node *n) {
   }
 }
 
+static bool _run_is_outdated(struct node_resolve *r, const char *path) {
+  for (int i = 0; i < r->resolve_outdated.num; ++i) {
+    struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+    if (strcmp(u->path, path) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 static void _run_on_resolve(struct node_resolve *r) {
   struct node *n = r->n;
   struct _run_on_resolve_ctx *ctx = r->user_data;
 
   if (ctx->fe) {
     if (ctx->fe_consumed) { // Foreach variable is consumed by run
-      struct ulist flist_ = { .usize = sizeof(char*) };
-      struct ulist *flist = &ctx->consumes_foreach;
-      if (r->resolve_outdated.num) {
-        for (int i = 0; i < r->resolve_outdated.num; ++i) {
-          struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
-          if (u->flags != 'f') {
-            flist = &ctx->consumes_foreach; // Fallback to all consumed
-            break;
-          }
-          char *path = pool_strdup(r->pool, u->path);
-          ulist_push(&flist_, &path);
-          flist = &flist_;
-        }
+      bool all = r->resolve_outdated.num == 0;
+      for (int i = 0; !all && i < r->resolve_outdated.num; ++i) {
+        struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+        all = u->flags != 'f'; // Fallback to all consumed
       }
 
       struct unit *unit = unit_peek();
-      for (int i = 0; i < flist->num; ++i) {
-        char *p, *fi = *(char**) ulist_get(flist, i);
-        if (n->flags & NODE_FLG_IN_CACHE) {
-          p = path_relativize_cwd(unit->cache_dir, fi, unit->cache_dir);
-        } else if (n->flags & NODE_FLG_IN_SRC) {
-          p = path_relativize_cwd(unit->dir, fi, unit->dir);
+      for (int i = 0; i < ctx->items.num; ++i) {
+        bool outdated = all;
+        char *fi = 0;
+        for (int j = 0; j < ctx->consumes_foreach.num; ++j) {
+          struct _run_foreach_path *fp = ulist_get(&ctx->consumes_foreach, j);
+          if (fp->item == i) {
+            if (fp->self) {
+              fi = fp->path;
+            }
+            outdated = outdated || _run_is_outdated(r, fp->path);
+          }
+        }
+        if (!outdated) {
+          continue;
+        }
+        char *p = 0;
+        if (fi) {
+          if (n->flags & NODE_FLG_IN_CACHE) {
+            p = path_relativize_cwd(unit->cache_dir, fi, unit->cache_dir);
+          } else if (n->flags & NODE_FLG_IN_SRC) {
+            p = path_relativize_cwd(unit->dir, fi, unit->dir);
+          }
         } else {
-          p = fi;
+          fi = *(char**) ulist_get(&ctx->items, i);
         }
-        ctx->fe->value = p;
+        ctx->fe->value = p ? p : fi;
         _run_on_resolve_do(r, n);
         ctx->fe->value = 0;
-        if (p != fi) {
-          free(p);
-        }
+        free(p);
       }
-
-      ulist_destroy_keep(&flist_);
     } else {
       struct vlist_iter iter;
       vlist_iter_init(ctx->fe->items, &iter);
@@ -213,8 +235,8 @@ static void _run_on_resolve(struct node_resolve *r) {
   }
 
   for (int i = 0; i < ctx->consumes_foreach.num; ++i) {
-    const char *path = *(const char**) ulist_get(&ctx->consumes_foreach, i);
-    deps_add(&deps, DEPS_TYPE_FILE, 'f', path, 0);
+    struct _run_foreach_path *fp = ulist_get(&ctx->consumes_foreach, i);
+    deps_add(&deps, DEPS_TYPE_FILE, 'f', fp->path, 0);
   }
 
   deps_close(&deps);
@@ -273,47 +295,111 @@ static void _run_on_consumed_resolved(const char *path_, void *d) {
   ulist_push(&ctx->consumes, &path);
 }
 
-static void _run_on_consumed_resolved_foreach(const char *path_, void *d) {
+static void _run_on_consumed_resolved_foreach(const char *path, void *d) {
   struct _run_on_resolve_ctx *ctx = d;
-  const char *path = pool_strdup(ctx->r->pool, path_);
-  ulist_push(&ctx->consumes_foreach, &path);
+  struct _run_foreach_path fp = *ctx->cur;
+  fp.path = pool_strdup(ctx->r->pool, path);
+  ulist_push(&ctx->consumes_foreach, &fp);
+}
+
+static bool _run_is_foreach_dependent(struct node *nn, struct node_foreach *fe) {
+  if (!fe) {
+    return false;
+  }
+  fe->access_cnt = 0;
+  node_value(nn);
+  return fe->access_cnt > 0;
+}
+
+static void _run_add_paths(struct pool *pool, const char *v, const char *item, int idx, struct ulist *paths) {
+  if (!v || *v == '\0') {
+    return;
+  }
+  struct _run_foreach_path fp = { .item = idx };
+  if (is_vlist(v)) {
+    struct vlist_iter iter;
+    vlist_iter_init(v, &iter);
+    while (vlist_iter_next(&iter)) {
+      fp.path = pool_strndup(pool, iter.item, iter.len);
+      fp.self = item && strcmp(fp.path, item) == 0;
+      ulist_push(paths, &fp);
+    }
+  } else {
+    fp.path = pool_strdup(pool, v);
+    fp.self = item && strcmp(v, item) == 0;
+    ulist_push(paths, &fp);
+  }
 }
 
 static void _run_on_resolve_init(struct node_resolve *r) {
   struct _run_on_resolve_ctx *ctx = r->user_data;
   ctx->r = r;
-  struct node *nn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
+  struct node_foreach *fe = ctx->fe;
+  struct node *cn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
 
-  if (ctx->fe) {
-    ctx->fe->value = 0;
-    ctx->fe->access_cnt = 0;
+  if (!cn || !cn->child) {
+    return;
   }
 
-  if (nn && nn->child) {
-    node_consumes_resolve(r->n, nn->child, 0, _run_on_consumed_resolved, ctx);
+  if (!fe) {
+    node_consumes_resolve(r->n, cn->child, 0, _run_on_consumed_resolved, ctx);
+    return;
+  }
+
+  struct ulist paths = { .usize = sizeof(char*) };
+  struct ulist fpaths = { .usize = sizeof(struct _run_foreach_path) };
+
+  // Paths which are the same for all items
+  fe->value = 0;
+  for (struct node *nn = cn->child; nn; nn = nn->next) {
+    if (_run_is_foreach_dependent(nn, fe)) {
+      ctx->fe_consumed = true;
+    } else {
+      _run_add_paths(r->pool, node_value(nn), 0, -1, &fpaths);
+    }
+  }
+  for (int i = 0; i < fpaths.num; ++i) {
+    struct _run_foreach_path *fp = ulist_get(&fpaths, i);
+    ulist_push(&paths, &fp->path);
   }
+  node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved, ctx);
 
-  if (ctx->fe && ctx->fe->access_cnt > 0) {
-    ctx->fe_consumed = true;
+  if (ctx->fe_consumed) {
+    // Other paths are different for every item
+    ulist_clear(&fpaths);
 
     struct vlist_iter iter;
-    struct ulist paths = { .usize = sizeof(char*) };
-    vlist_iter_init(ctx->fe->items, &iter);
+    vlist_iter_init(fe->items, &iter);
     while (vlist_iter_next(&iter)) {
-      char buf[iter.len + 1];
-      memcpy(buf, iter.item, iter.len);
-      char *p = pool_strndup(r->pool, buf, iter.len);
-      ulist_push(&paths, &p);
+      char *item = pool_strndup(r->pool, iter.item, iter.len);
+      for (struct node *nn = cn->child; nn; nn = nn->next) {
+        fe->value = 0;
+        if (_run_is_foreach_dependent(nn, fe)) {
+          fe->value = item;
+          _run_add_paths(r->pool, node_value(nn), item, ctx->items.num, &fpaths);
+        }
+      }
+      fe->value = 0;
+      ulist_push(&ctx->items, &item);
+    }
+
+    for (int i = 0; i < fpaths.num; ++i) {
+      ctx->cur = ulist_get(&fpaths, i);
+      ulist_clear(&paths);
+      ulist_push(&paths, &ctx->cur->path);
+      node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
     }
-    node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
-    ulist_destroy_keep(&paths);
   }
+
+  ulist_destroy_keep(&paths);
+  ulist_destroy_keep(&fpaths);
 }
 
 static void _run_build(struct node *n) {
   struct _run_on_resolve_ctx ctx = {
     .consumes = { .usize = sizeof(char*) },
-    .consumes_foreach = { .usize = sizeof(char*) },
+    .consumes_foreach = { .usize = sizeof(struct _run_foreach_path) },
+    .items = { .usize = sizeof(char*) },
     .fe = node_find_parent_foreach(n),
   };
 
@@ -350,6 +436,7 @@ static void _run_build(struct node *n) {
   node_resolve(&r);
   ulist_destroy_keep(&ctx.consumes);
   ulist_destroy_keep(&ctx.consumes_foreach);
+  ulist_destroy_keep(&ctx.items);
 }
 
 int node_run_setup(struct node *n) {
-- 
2.43.0


From c7f8c6bdb10a21e5aba39e1e12aef571fa8fcb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 50/66] fix: a read only file could not be installed again

---
 node_install.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node_install.c b/node_install.c
index 91911fc..1d5a79e 100644
--- a/node_install.c
+++ b/node_install.c
@@ -62,6 +62,9 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
     node_fatal(errno, n, "Error opening file: %s", src);
   }
   int out_fd = open(dst, O_WRONLY | O_CREAT | O_TRUNC, st->st_mode);
+  if (out_fd < 0 && errno == EACCES && unlink(dst) == 0) { // Installed file is read only like its source
+    out_fd = open(dst, O_WRONLY | O_CREAT | O_TRUNC, st->st_mode);
+  }
   if (out_fd == -1) {
     node_fatal(errno, n, "Error opening file: %s", dst);
   }
-- 
2.43.0


From 42babd898753e9db8ca9842ffd231a00d5226a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:44 +0000
Subject: [PATCH 51/66] fix: records of a copied project were taken for its own

---
 script.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/script.c b/script.c
index d0014ec..30adc6c 100644
--- a/script.c
+++ b/script.c
@@ -1127,10 +1127,11 @@ static uint64_t _node_hash(struct node *n, uint64_t hash) {
 }
 
 // Node identity. Since node index used as its deps file name depends on the all nodes
-// created before, an existing deps file may belong to some other node.
+// created before, an existing deps file may belong to some other node,
+// or to a copy of the project in some other place.
 static char* _node_id(struct pool *pool, struct node *n) {
   struct node *fe = node_find_parent_of_type(n, NODE_TYPE_FOREACH);
-  return pool_printf(pool, "%s:%llx", _node_file(n),
+  return pool_printf(pool, "%s:%s:%s:%llx", g_env.project.root_dir, g_env.project.cache_dir, _node_file(n),
                      (unsigned long long) _node_hash(fe ? fe : n, 0xcbf29ce484222325ULL));
 }
 
-- 
2.43.0


From e9776f4e8a84eadc122d27696871eff8d156d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 52/66] fix: //autarkdef with a list gave its raw separators

---
 node_configure.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node_configure.c b/node_configure.c
index ee3842a..3c95572 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -38,7 +38,12 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
     deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
-      xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
+      if (is_vlist(val)) {
+        xstr_printf(xstr, "#define %s \"%s\"\n", key, val + 1);
+        utils_chars_replace(xstr_ptr(xstr), '\1', ' ');
+      } else {
+        xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
+      }
       return xstr_destroy_keep_ptr(xstr);
     }
   } else if (*np >= '0' && *np <= '9') {
-- 
2.43.0


From 63f832e59c828566e05ede2af3742b06380d411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 53/66] fix: a read only template could not be configured again

---
 node_configure.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_configure.c b/node_configure.c
index 3c95572..0d00dd6 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -12,6 +12,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <errno.h>
+#include <unistd.h>
 #include <sys/stat.h>
 #endif
 
@@ -172,6 +173,9 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
   }
 
   FILE *t = fopen(tgt, "w");
+  if (!t && errno == EACCES && unlink(tgt) == 0) { // The previous result is read only like its template
+    t = fopen(tgt, "w");
+  }
   if (!t) {
     node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
   }
-- 
2.43.0


From e9e49aafe36663551cdb346726bfab44fffbbaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 54/66] fix: failed writes of configured files and records were
 not noticed

---
 autark_core.c    | 4 +++-
 deps.c           | 5 ++++-
 node_configure.c | 4 +++-
 utils.c          | 4 +++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 730353e..422f908 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -465,7 +465,9 @@ static void _on_command_set(int argc, const char **argv) {
       free(line);
     }
   }
-  fclose(f);
+  if (fclose(f) == EOF) {
+    akfatal(errno, "Failed to write file: %s", env_path);
+  }
 }
 
 static void _on_command_dep(int argc, const char **argv) {
diff --git a/deps.c b/deps.c
index 73d9862..d50d384 100644
--- a/deps.c
+++ b/deps.c
@@ -203,7 +203,10 @@ int deps_add_sys_env(struct deps *d, char flags, const char *key, const char *va
 
 void deps_close(struct deps *d) {
   if (d && d->file) {
-    fclose(d->file);
+    bool failed = ferror(d->file);
+    if (fclose(d->file) == EOF || failed) {
+      akfatal(AK_ERROR_IO, "Failed to write a dependency file", 0);
+    }
     d->file = 0;
   }
 }
diff --git a/node_configure.c b/node_configure.c
index 0d00dd6..4d72db1 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -210,7 +210,9 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
   }
 
   fclose(f);
-  fclose(t);
+  if (fclose(t) == EOF) {
+    node_fatal(errno, n, "File write fail: %s", tgt);
+  }
 
   if (xstr) {
     int rc = utils_rename_file(tgt, src);
diff --git a/utils.c b/utils.c
index d9e17ab..75c812f 100644
--- a/utils.c
+++ b/utils.c
@@ -104,7 +104,9 @@ int utils_copy_file(const char *src, const char *dst) {
     }
   }
   fclose(sf);
-  fclose(df);
+  if (fclose(df) == EOF && !rc) {
+    rc = errno;
+  }
   return rc;
 }
 
-- 
2.43.0


From 48454dcb9c29397d553d20c4d38ff2a7d3df9dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:00 +0000
Subject: [PATCH 55/66] fix: links to the project and cache folders were not
 resolved

---
 autark_core.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 422f908..754a3d6 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -367,19 +367,28 @@ void autark_build_prepare(const char *script_path) {
     akfatal(AK_ERROR_FAIL, "%s is not a directory", root_dir);
   }
 
-  g_env.project.root_dir = root_dir;
-  g_env.cwd = root_dir;
   if (chdir(root_dir)) {
     akfatal(errno, "Failed to change dir to: %s", root_dir);
   }
+  root_dir = path_real_pool(root_dir, g_env.pool);
+  if (!root_dir) {
+    akfatal(errno, "Failed to resolve project dir", 0);
+  }
+  g_env.project.root_dir = root_dir;
+  g_env.cwd = root_dir;
 
   if (!g_env.project.cache_dir) {
     g_env.project.cache_dir = AUTARK_CACHE;
   }
 
-  g_env.project.cache_dir = path_normalize_pool(g_env.project.cache_dir, g_env.pool);
+  const char *cache_dir = path_normalize_pool(g_env.project.cache_dir, g_env.pool);
+  int rc = path_mkdirs(cache_dir);
+  if (rc) {
+    akfatal(rc, "Failed to create directory: %s", cache_dir);
+  }
+  g_env.project.cache_dir = path_real_pool(cache_dir, g_env.pool);
   if (!g_env.project.cache_dir) {
-    akfatal(errno, "Failed to resolve project CACHE dir: %s", g_env.project.cache_dir);
+    akfatal(errno, "Failed to resolve project CACHE dir: %s", cache_dir);
   }
 
   if (  strcmp(g_env.project.cache_dir, g_env.project.root_dir) == 0
@@ -389,7 +398,7 @@ void autark_build_prepare(const char *script_path) {
 
   if (g_env.project.cleanup) {
     if (path_is_dir(g_env.project.cache_dir)) {
-      int rc = path_rm_cache(g_env.project.cache_dir);
+      rc = path_rm_cache(g_env.project.cache_dir);
       if (rc) {
         akfatal(rc, "Failed to remove cache directory: %s", g_env.project.cache_dir);
       }
-- 
2.43.0


From 4650328c9f102ad7cd576ae4b4a279c25c722eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:07 +0000
Subject: [PATCH 56/66] fix: changes of names of consumed files were not
 noticed

---
 node_cc.c        |  3 +++
 node_configure.c |  3 +++
 node_install.c   |  3 +++
 node_run.c       | 14 +++++++++++++-
 script.c         | 10 +++++++++-
 script.h         |  4 ++++
 6 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index b2df749..1cc6354 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -323,6 +323,9 @@ static void _cc_on_resolve_init(struct node_resolve *r) {
   if (ctx->n_consumes) {
     node_consumes_resolve(r->n, ctx->n_consumes->child, 0, _cc_on_consumed_resolved, r->n);
   }
+  for (int i = 0; i < ctx->consumes.num; ++i) {
+    node_resolve_state_add(r, *(const char**) ulist_get(&ctx->consumes, i));
+  }
 }
 
 static void _cc_build(struct node *n) {
diff --git a/node_configure.c b/node_configure.c
index 4d72db1..872dfe1 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -292,6 +292,9 @@ static void _configure_on_resolve_init(struct node_resolve *r) {
   struct node *n = r->n;
   struct _configure_ctx *ctx = n->impl;
   node_consumes_resolve(n, 0, &ctx->sources, 0, 0);
+  for (int i = 0; i < ctx->sources.num; ++i) {
+    node_resolve_state_add(r, *(const char**) ulist_get(&ctx->sources, i));
+  }
 }
 
 static void _configure_build(struct node *n) {
diff --git a/node_install.c b/node_install.c
index 1d5a79e..0b4547a 100644
--- a/node_install.c
+++ b/node_install.c
@@ -220,6 +220,9 @@ static void _install_on_resolve_init(struct node_resolve *r) {
   if (nn) {
     node_consumes_resolve(r->n, nn, 0, _install_on_consumed_resolved, ctx);
   }
+  for (int i = 0; i < ctx->consumes.num; ++i) {
+    node_resolve_state_add(r, *(const char**) ulist_get(&ctx->consumes, i));
+  }
 }
 
 static void _install_post_build(struct node *n) {
diff --git a/node_run.c b/node_run.c
index a3965b8..25906f0 100644
--- a/node_run.c
+++ b/node_run.c
@@ -331,7 +331,7 @@ static void _run_add_paths(struct pool *pool, const char *v, const char *item, i
   }
 }
 
-static void _run_on_resolve_init(struct node_resolve *r) {
+static void _run_consumes_resolve(struct node_resolve *r) {
   struct _run_on_resolve_ctx *ctx = r->user_data;
   ctx->r = r;
   struct node_foreach *fe = ctx->fe;
@@ -395,6 +395,18 @@ static void _run_on_resolve_init(struct node_resolve *r) {
   ulist_destroy_keep(&fpaths);
 }
 
+static void _run_on_resolve_init(struct node_resolve *r) {
+  struct _run_on_resolve_ctx *ctx = r->user_data;
+  _run_consumes_resolve(r);
+  for (int i = 0; i < ctx->consumes.num; ++i) {
+    node_resolve_state_add(r, *(const char**) ulist_get(&ctx->consumes, i));
+  }
+  for (int i = 0; i < ctx->consumes_foreach.num; ++i) {
+    struct _run_foreach_path *fp = ulist_get(&ctx->consumes_foreach, i);
+    node_resolve_state_add(r, fp->path);
+  }
+}
+
 static void _run_build(struct node *n) {
   struct _run_on_resolve_ctx ctx = {
     .consumes = { .usize = sizeof(char*) },
diff --git a/script.c b/script.c
index 30adc6c..b7dab4b 100644
--- a/script.c
+++ b/script.c
@@ -1145,6 +1145,14 @@ static void _node_add_product_deps(struct node *n, struct deps *deps) {
   }
 }
 
+void node_resolve_state_add(struct node_resolve *r, const char *val) {
+  uint64_t hash = r->state ? r->state : 0xcbf29ce484222325ULL;
+  for (const char *p = val; p && *p; ++p) {
+    hash = (hash ^ (unsigned char) *p) * 0x100000001b3ULL;
+  }
+  r->state = (hash ^ (unsigned char) '\n') * 0x100000001b3ULL;
+}
+
 void node_resolve(struct node_resolve *r) {
   akassert(r && r->path && r->n);
 
@@ -1172,7 +1180,7 @@ void node_resolve(struct node_resolve *r) {
     r->on_init(r);
   }
 
-  char *node_id = _node_id(pool, r->n);
+  char *node_id = pool_printf(pool, "%s:%llx", _node_id(pool, r->n), (unsigned long long) r->state);
 
   if (!r->force_outdated && !deps_open(deps_path, DEPS_OPEN_READONLY, &deps)) {
     char *prev_outdated = 0;
diff --git a/script.h b/script.h
index c7a7fdf..39d589d 100644
--- a/script.h
+++ b/script.h
@@ -8,6 +8,7 @@
 #include "map.h"
 
 #include <stdbool.h>
+#include <stdint.h>
 #endif
 
 // value types
@@ -185,6 +186,7 @@ struct node_resolve {
   struct ulist resolve_outdated; // struct resolve_outdated
   struct ulist node_val_deps;    // struct node*
   struct pool *pool;
+  uint64_t     state; // Hash of inputs which are known after on_init(), see node_resolve_state_add()
   unsigned     mode;
   int  num_deps;    // Number of dependencies
   bool force_outdated;
@@ -200,6 +202,8 @@ struct resolve_outdated {
 
 void node_resolve(struct node_resolve*);
 
+void node_resolve_state_add(struct node_resolve*, const char *val);
+
 __attribute__((noreturn))
 void node_fatal(int rc, struct node *n, const char *fmt, ...);
 
-- 
2.43.0


From 23c60d6241ccade743e09319ff2a70f6a497ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:10 +0000
Subject: [PATCH 57/66] fix: variables joined with an item of foreach were not
 tracked

---
 node_run.c | 156 ++++++++++++++++++++++++++---------------------------
 1 file changed, 75 insertions(+), 81 deletions(-)

diff --git a/node_run.c b/node_run.c
index 25906f0..5f3bdad 100644
--- a/node_run.c
+++ b/node_run.c
@@ -37,7 +37,8 @@ struct _run_on_resolve_ctx {
   struct node_foreach *fe;
   struct ulist consumes;         // sizeof(char*)
   struct ulist consumes_foreach; // struct _run_foreach_path
-  struct ulist items;            // sizeof(char*), foreach items
+  struct ulist items;            // sizeof(char*), values of foreach variable
+  struct ulist fe_args;          // struct node*, arguments of commands which depend on foreach variable
   struct _run_foreach_path *cur; // Path is being resolved
   bool fe_consumed;              // Foreach variable is consumed
 };
@@ -159,53 +160,20 @@ static void _run_on_resolve(struct node_resolve *r) {
   struct _run_on_resolve_ctx *ctx = r->user_data;
 
   if (ctx->fe) {
-    if (ctx->fe_consumed) { // Foreach variable is consumed by run
-      bool all = r->resolve_outdated.num == 0;
-      for (int i = 0; !all && i < r->resolve_outdated.num; ++i) {
-        struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
-        all = u->flags != 'f'; // Fallback to all consumed
-      }
+    bool all = !ctx->fe_consumed || r->resolve_outdated.num == 0;
+    for (int i = 0; !all && i < r->resolve_outdated.num; ++i) {
+      struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+      all = u->flags != 'f'; // Fallback to all consumed
+    }
 
-      struct unit *unit = unit_peek();
-      for (int i = 0; i < ctx->items.num; ++i) {
-        bool outdated = all;
-        char *fi = 0;
-        for (int j = 0; j < ctx->consumes_foreach.num; ++j) {
-          struct _run_foreach_path *fp = ulist_get(&ctx->consumes_foreach, j);
-          if (fp->item == i) {
-            if (fp->self) {
-              fi = fp->path;
-            }
-            outdated = outdated || _run_is_outdated(r, fp->path);
-          }
-        }
-        if (!outdated) {
-          continue;
-        }
-        char *p = 0;
-        if (fi) {
-          if (n->flags & NODE_FLG_IN_CACHE) {
-            p = path_relativize_cwd(unit->cache_dir, fi, unit->cache_dir);
-          } else if (n->flags & NODE_FLG_IN_SRC) {
-            p = path_relativize_cwd(unit->dir, fi, unit->dir);
-          }
-        } else {
-          fi = *(char**) ulist_get(&ctx->items, i);
-        }
-        ctx->fe->value = p ? p : fi;
-        _run_on_resolve_do(r, n);
-        ctx->fe->value = 0;
-        free(p);
+    for (int i = 0; i < ctx->items.num; ++i) {
+      bool outdated = all;
+      for (int j = 0; !outdated && j < ctx->consumes_foreach.num; ++j) {
+        struct _run_foreach_path *fp = ulist_get(&ctx->consumes_foreach, j);
+        outdated = fp->item == i && _run_is_outdated(r, fp->path);
       }
-    } else {
-      struct vlist_iter iter;
-      vlist_iter_init(ctx->fe->items, &iter);
-      while (vlist_iter_next(&iter)) {
-        char buf[iter.len + 1];
-        memcpy(buf, iter.item, iter.len);
-        buf[iter.len] = '\0';
-
-        ctx->fe->value = buf;
+      if (outdated) {
+        ctx->fe->value = *(char**) ulist_get(&ctx->items, i);
         _run_on_resolve_do(r, n);
         ctx->fe->value = 0;
       }
@@ -331,27 +299,33 @@ static void _run_add_paths(struct pool *pool, const char *v, const char *item, i
   }
 }
 
-static void _run_consumes_resolve(struct node_resolve *r) {
-  struct _run_on_resolve_ctx *ctx = r->user_data;
-  ctx->r = r;
-  struct node_foreach *fe = ctx->fe;
-  struct node *cn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
-
-  if (!cn || !cn->child) {
-    return;
-  }
-
-  if (!fe) {
-    node_consumes_resolve(r->n, cn->child, 0, _run_on_consumed_resolved, ctx);
-    return;
+// Value of foreach variable as it is seen by commands
+static const char* _run_foreach_value(struct _run_on_resolve_ctx *ctx, int item, const char *value) {
+  struct node *n = ctx->r->n;
+  struct unit *unit = unit_peek();
+  for (int i = ctx->consumes_foreach.num - 1; i >= 0; --i) {
+    struct _run_foreach_path *fp = ulist_get(&ctx->consumes_foreach, i);
+    if (fp->item == item && fp->self) {
+      const char *dir = (n->flags & NODE_FLG_IN_CACHE) ? unit->cache_dir
+                                                       : (n->flags & NODE_FLG_IN_SRC) ? unit->dir : 0;
+      char *p = dir ? path_relativize_cwd(dir, fp->path, dir) : 0;
+      value = p ? pool_strdup(ctx->r->pool, p) : fp->path;
+      free(p);
+      break;
+    }
   }
+  return value;
+}
 
+static void _run_on_resolve_init_foreach(struct node_resolve *r, struct node *consumes) {
+  struct _run_on_resolve_ctx *ctx = r->user_data;
+  struct node_foreach *fe = ctx->fe;
   struct ulist paths = { .usize = sizeof(char*) };
   struct ulist fpaths = { .usize = sizeof(struct _run_foreach_path) };
 
   // Paths which are the same for all items
   fe->value = 0;
-  for (struct node *nn = cn->child; nn; nn = nn->next) {
+  for (struct node *nn = consumes; nn; nn = nn->next) {
     if (_run_is_foreach_dependent(nn, fe)) {
       ctx->fe_consumed = true;
     } else {
@@ -364,31 +338,39 @@ static void _run_consumes_resolve(struct node_resolve *r) {
   }
   node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved, ctx);
 
-  if (ctx->fe_consumed) {
-    // Other paths are different for every item
-    ulist_clear(&fpaths);
+  // Other paths are different for every item
+  ulist_clear(&fpaths);
 
-    struct vlist_iter iter;
-    vlist_iter_init(fe->items, &iter);
-    while (vlist_iter_next(&iter)) {
-      char *item = pool_strndup(r->pool, iter.item, iter.len);
-      for (struct node *nn = cn->child; nn; nn = nn->next) {
-        fe->value = 0;
-        if (_run_is_foreach_dependent(nn, fe)) {
-          fe->value = item;
-          _run_add_paths(r->pool, node_value(nn), item, ctx->items.num, &fpaths);
-        }
-      }
+  struct vlist_iter iter;
+  vlist_iter_init(fe->items, &iter);
+  while (vlist_iter_next(&iter)) {
+    char *item = pool_strndup(r->pool, iter.item, iter.len);
+    for (struct node *nn = consumes; nn && ctx->fe_consumed; nn = nn->next) {
       fe->value = 0;
-      ulist_push(&ctx->items, &item);
+      if (_run_is_foreach_dependent(nn, fe)) {
+        fe->value = item;
+        _run_add_paths(r->pool, node_value(nn), item, ctx->items.num, &fpaths);
+      }
     }
+    fe->value = 0;
+    ulist_push(&ctx->items, &item);
+  }
+
+  for (int i = 0; i < fpaths.num; ++i) {
+    ctx->cur = ulist_get(&fpaths, i);
+    ulist_clear(&paths);
+    ulist_push(&paths, &ctx->cur->path);
+    node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
+  }
 
-    for (int i = 0; i < fpaths.num; ++i) {
-      ctx->cur = ulist_get(&fpaths, i);
-      ulist_clear(&paths);
-      ulist_push(&paths, &ctx->cur->path);
-      node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
+  for (int i = 0; i < ctx->items.num; ++i) {
+    const char **item = ulist_get(&ctx->items, i);
+    *item = _run_foreach_value(ctx, i, *item);
+    fe->value = (char*) *item;
+    for (int j = 0; j < ctx->fe_args.num; ++j) {
+      node_resolve_state_add(r, node_value(*(struct node**) ulist_get(&ctx->fe_args, j)));
     }
+    fe->value = 0;
   }
 
   ulist_destroy_keep(&paths);
@@ -397,7 +379,15 @@ static void _run_consumes_resolve(struct node_resolve *r) {
 
 static void _run_on_resolve_init(struct node_resolve *r) {
   struct _run_on_resolve_ctx *ctx = r->user_data;
-  _run_consumes_resolve(r);
+  ctx->r = r;
+  struct node *cn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
+
+  if (ctx->fe) {
+    _run_on_resolve_init_foreach(r, cn ? cn->child : 0);
+  } else if (cn && cn->child) {
+    node_consumes_resolve(r->n, cn->child, 0, _run_on_consumed_resolved, ctx);
+  }
+
   for (int i = 0; i < ctx->consumes.num; ++i) {
     node_resolve_state_add(r, *(const char**) ulist_get(&ctx->consumes, i));
   }
@@ -412,6 +402,7 @@ static void _run_build(struct node *n) {
     .consumes = { .usize = sizeof(char*) },
     .consumes_foreach = { .usize = sizeof(struct _run_foreach_path) },
     .items = { .usize = sizeof(char*) },
+    .fe_args = { .usize = sizeof(struct node*) },
     .fe = node_find_parent_foreach(n),
   };
 
@@ -432,6 +423,8 @@ static void _run_build(struct node *n) {
       for (struct node *cn = nn->child; cn; cn = cn->next) {
         if (node_is_value_may_be_dep_saved(cn)) {
           ulist_push(&r.node_val_deps, &cn);
+        } else if (ctx.fe && cn->type != NODE_TYPE_VALUE && node_is_can_be_value(cn)) {
+          ulist_push(&ctx.fe_args, &cn);
         }
       }
     }
@@ -449,6 +442,7 @@ static void _run_build(struct node *n) {
   ulist_destroy_keep(&ctx.consumes);
   ulist_destroy_keep(&ctx.consumes_foreach);
   ulist_destroy_keep(&ctx.items);
+  ulist_destroy_keep(&ctx.fe_args);
 }
 
 int node_run_setup(struct node *n) {
-- 
2.43.0


From eae5e6297ffbe79dc416529d69293ab1b6659dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 58/66] fix: output of commands was cut at NUL bytes

---
 node_check.c | 4 ++--
 node_run.c   | 4 ++--
 node_subst.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/node_check.c b/node_check.c
index d196127..0636654 100644
--- a/node_check.c
+++ b/node_check.c
@@ -13,11 +13,11 @@
 #endif
 
 static void _check_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _check_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _check_on_env_value(struct node_resolve *nr, const char *key, const char *val) {
diff --git a/node_run.c b/node_run.c
index 5f3bdad..4eea2eb 100644
--- a/node_run.c
+++ b/node_run.c
@@ -18,11 +18,11 @@ struct _run_spawn_data {
 };
 
 static void _run_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _run_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 // Path consumed on behalf of a foreach item
diff --git a/node_subst.c b/node_subst.c
index 505913c..be25db0 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -61,13 +61,13 @@ struct _subst_ctx {
 };
 
 static void _subst_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   struct _subst_ctx *ctx = spawn_user_data(s);
   xstr_cat2(ctx->xstr, buf, buflen);
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 // Checks if the command depends on a variable of the enclosing `foreach`
-- 
2.43.0


From 2357aaba2491a0e613eb6ad9d05b0d584ebfbcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 59/66] fix: a cached output larger than 1Mb failed all
 following builds

---
 node_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_subst.c b/node_subst.c
index be25db0..238190d 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -191,7 +191,7 @@ static const char* _subst_value_proc_cache(struct node *n) {
     struct unit *unit = unit_peek();
     char path[PATH_MAX];
     snprintf(path, sizeof(path), "%s/%s.cache", unit->cache_dir, r.path);
-    struct value val = utils_file_as_buf(path, 1024 * 1024); // 1Mb max
+    struct value val = utils_file_as_buf(path, -1);
     if (val.error) {
       node_fatal(val.error, n, "Failed to read cache file: %s", path);
     }
-- 
2.43.0


From 76eaf831210f5304302c6fe89cadd59203e64c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 60/66] fix: output of a failed command was lost

---
 log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log.c b/log.c
index 1c49016..108236e 100644
--- a/log.c
+++ b/log.c
@@ -129,6 +129,7 @@ void akfatal2(const char *msg) {
     fputs(msg, stderr);
     fputc('\n', stderr);
   }
+  fflush(stdout); // Output of commands
   _exit(254);
 }
 
-- 
2.43.0


From d50ea4c582d986ec5654a1841e02e1310c7b5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:32 +0000
Subject: [PATCH 61/66] fix: directories and non executable files hid commands
 of the same name

---
 spawn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spawn.c b/spawn.c
index 7c729d8..ac56f68 100644
--- a/spawn.c
+++ b/spawn.c
@@ -12,6 +12,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
@@ -135,6 +136,7 @@ static char* _file_resolve_in_path(struct spawn *s, const char *file, char pathb
     sp = getenv("PATH");
   }
   const char *ep = sp;
+  struct stat st;
   while (sp) {
     for ( ; *ep != '\0' && *ep != ':'; ++ep) ;
     if (ep - sp > 0 && ep - sp < PATH_MAX) {
@@ -145,7 +147,7 @@ static char* _file_resolve_in_path(struct spawn *s, const char *file, char pathb
       } else {
         snprintf(pathbuf, PATH_MAX, "%s%s", buf, file);
       }
-      if (!access(pathbuf, F_OK)) {
+      if (!access(pathbuf, X_OK) && !stat(pathbuf, &st) && S_ISREG(st.st_mode)) {
         return pathbuf;
       }
     }
-- 
2.43.0


From 8efca9c18f5132554bae0a94462c32fc9e398c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:06 +0000
Subject: [PATCH 62/66] fix: values larger than 256Kb never matched their
 records, long chains of rules overflowed the stack

---
 deps.c | 18 ++++++++++++++----
 deps.h |  5 ++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/deps.c b/deps.c
index d50d384..b0404ff 100644
--- a/deps.c
+++ b/deps.c
@@ -4,10 +4,12 @@
 #include "utils.h"
 #include "paths.h"
 #include "env.h"
+#include "alloc.h"
 
 #include <errno.h>
 #include <assert.h>
 #include <string.h>
+#include <stdlib.h>
 #include <stdio.h>
 #include <unistd.h>
 #include <inttypes.h>
@@ -30,7 +32,7 @@ int deps_open(const char *path, int omode, struct deps *d) {
 bool deps_cur_next(struct deps *d) {
   int rc;
   if (d && d->file) {
-    if (!fgets(d->buf, sizeof(d->buf), d->file)) {
+    if (getline(&d->buf, &d->buf_sz, d->file) < 0) {
       return false;
     }
 
@@ -129,7 +131,7 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
 static int _deps_add(struct deps *d, char type, char flags, const char *resource, const char *alias, int64_t serial) {
   int rc = 0;
   char buf[2][PATH_MAX];
-  char dbuf[DEPS_BUF_SZ];
+  char *dbuf = 0;
 
   if (flags == 0) {
     flags = ' ';
@@ -152,7 +154,7 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     }
   } else if (type == DEPS_TYPE_ENV || type == DEPS_TYPE_NODE_VALUE || type == DEPS_TYPE_SYS_ENV) {
     assert(resource);
-    utils_strncpy(dbuf, resource, sizeof(dbuf));
+    dbuf = xstrdup(resource);
     utils_chars_replace(dbuf, '\n', '\2');
     resource = dbuf;
   } else if (type == DEPS_TYPE_FILE_OUTDATED) {
@@ -164,7 +166,9 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
 
   long int off = ftell(d->file);
   if (off < 0) {
-    return errno;
+    rc = errno;
+    free(dbuf);
+    return rc;
   }
   fseek(d->file, 0, SEEK_END);
 
@@ -182,6 +186,7 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
   if (!rc) {
     ++d->num_registered;
   }
+  free(dbuf);
   return rc;
 }
 
@@ -209,6 +214,11 @@ void deps_close(struct deps *d) {
     }
     d->file = 0;
   }
+  if (d) {
+    free(d->buf);
+    d->buf = 0;
+    d->buf_sz = 0;
+  }
 }
 
 void deps_prune_all(const char *path) {
diff --git a/deps.h b/deps.h
index 9efa6b2..0ab1c1a 100644
--- a/deps.h
+++ b/deps.h
@@ -24,8 +24,6 @@
 
 #define DEPS_FLG_UNDEFINED 'u' // Variable was not defined
 
-#define DEPS_BUF_SZ 262144
-
 struct deps {
   char    type;
   char    flags;
@@ -34,7 +32,8 @@ struct deps {
   const char *resource;
   const char *alias;
   FILE       *file;
-  char buf[DEPS_BUF_SZ];
+  char       *buf;          /// Current line
+  size_t      buf_sz;
 };
 
 int deps_open(const char *path, int omode, struct deps *init);
-- 
2.43.0


From d91672de2eba2b1a25c04bb5c171bf88b87e5209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:05 +0000
Subject: [PATCH 63/66] fix: options after the sources directory were ignored

---
 autark_core.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 754a3d6..d0743e4 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -674,6 +674,10 @@ const char* env_libdir(void) {
 #endif
 }
 
+static bool _is_command(const char *arg) {
+  return strcmp(arg, "set") == 0 || strcmp(arg, "dep") == 0 || strcmp(arg, "env") == 0 || strcmp(arg, "glob") == 0;
+}
+
 void autark_run(int argc, const char **argv) {
   akassert(argc > 0 && argv[0]);
   autark_init();
@@ -702,6 +706,7 @@ void autark_run(int argc, const char **argv) {
   const char *cdir = 0;
   struct ulist options = { .usize = sizeof(char*) };
 
+again:
   for (int ch; (ch = getopt_long(argc, (void*) argv, "+H:chVvlR:C:D:J:I", long_options, 0)) != -1; ) {
     switch (ch) {
       case 'H':
@@ -768,6 +773,12 @@ void autark_run(int argc, const char **argv) {
     }
   }
 
+  if (optind < argc && !g_env.project.root_dir && !_is_command(argv[optind])) {
+    // Root dir, it may be followed by options
+    g_env.project.root_dir = pool_strdup(g_env.pool, argv[optind++]);
+    goto again;
+  }
+
   if (version) {
     printf(META_VERSION "." META_REVISION);
     if (g_env.verbose) {
@@ -833,7 +844,7 @@ void autark_run(int argc, const char **argv) {
     g_env.max_parallel_jobs = 16;
   }
 
-  if (optind < argc) {
+  if (optind < argc && !g_env.project.root_dir) {
     const char *arg = argv[optind];
     ++optind;
     if (strcmp(arg, "set") == 0) {
@@ -848,8 +859,6 @@ void autark_run(int argc, const char **argv) {
     } else if (strcmp(arg, "glob") == 0) {
       _on_command_glob(argc, argv, cdir);
       return;
-    } else { // Root dir expected
-      g_env.project.root_dir = pool_strdup(g_env.pool, arg);
     }
   }
 
-- 
2.43.0


From 1bcb92ea6064d1a719a6d5feb4ae5c4978efcfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:57 +0000
Subject: [PATCH 64/66] fix: --bindir was ignored and ended parsing of options

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index d0743e4..e3ed20e 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -693,7 +693,7 @@ void autark_run(int argc, const char **argv) {
     { "prefix", 1, 0, 'R' },
     { "dir", 1, 0, 'C' },
     { "jobs", 1, 0, 'J' },
-    { "bindir", 1, 0, -1 },
+    { "bindir", 1, 0, -7 },
     { "libdir", 1, 0, -2 },
     { "includedir", 1, 0, -3 },
     { "pkgconfdir", 1, 0, -4 },
@@ -741,7 +741,7 @@ again:
       case 'C':
         cdir = pool_strdup(g_env.pool, optarg);
         break;
-      case -1:
+      case -7:
         g_env.install.bin_dir = pool_strdup(g_env.pool, optarg);
         break;
       case -2:
-- 
2.43.0


From a08c0e5f5ae0197b8d6b1b9d316361e478e38e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:57 +0000
Subject: [PATCH 65/66] fix: links redirected to older files were not noticed

---
 paths.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/paths.c b/paths.c
index 3842e9d..644d030 100644
--- a/paths.c
+++ b/paths.c
@@ -301,6 +301,18 @@ static int _stat(const char *path, int fd, struct akpath_stat *fs) {
   fs->ctime = _ts_sec_nsec_to_ms(st.st_ctim.tv_sec, st.st_ctim.tv_nsec);
 #endif
 
+  struct stat lst;
+  if (path && lstat(path, &lst) == 0 && S_ISLNK(lst.st_mode)) { // Link may be redirected to an older file
+#if defined(__APPLE__) || defined(__NetBSD__)
+    uint64_t mtime = _ts_sec_nsec_to_ms(lst.st_mtime, lst.st_mtimensec);
+#else
+    uint64_t mtime = _ts_sec_nsec_to_ms(lst.st_mtim.tv_sec, lst.st_mtim.tv_nsec);
+#endif
+    if (mtime > fs->mtime) {
+      fs->mtime = mtime;
+    }
+  }
+
   fs->size = (uint64_t) st.st_size;
 
   if (S_ISREG(st.st_mode)) {
-- 
2.43.0


From 655dc2ba5510cc120c6ecb44266e209d6663c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:57 +0000
Subject: [PATCH 66/66] fix: installing a file over a link overwrote the file
 the link points to

---
 node_install.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_install.c b/node_install.c
index 0b4547a..fa51820 100644
--- a/node_install.c
+++ b/node_install.c
@@ -61,6 +61,10 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   if (in_fd == -1) {
     node_fatal(errno, n, "Error opening file: %s", src);
   }
+  struct stat dst_st;
+  if (lstat(dst, &dst_st) == 0 && S_ISLNK(dst_st.st_mode)) { // Do not overwrite a file the link points to
+    unlink(dst);
+  }
   int out_fd = open(dst, O_WRONLY | O_CREAT | O_TRUNC, st->st_mode);
   if (out_fd < 0 && errno == EACCES && unlink(dst) == 0) { // Installed file is read only like its source
     out_fd = open(dst, O_WRONLY | O_CREAT | O_TRUNC, st->st_mode);
-- 
2.43.0

