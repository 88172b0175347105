From 038d6b7459025dfe60a8a900212491adede246bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:51 +0000
Subject: [PATCH 01/37] fix: don't wavefront over dimensions with negative
 dependence components

A band may contain scalar dimensions, and dependences satisfied by them can
have negative components at later dimensions of the band. Adding such a
dimension to the first one of the band while creating the tile schedule
violated these dependences.
---
 lib/tile.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9939b8a..be11e3b 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -379,6 +379,28 @@ void pluto_tile_scattering_dims(PlutoProg *prog, Band **bands, int nbands,
   pluto_detect_hyperplane_types_stmtwise(prog);
 }
 
+/// Returns true if a dependence between statements of the band, which isn't
+/// satisfied outside of the band, has a negative component at 'depth' (possible
+/// for those that are satisfied by a scalar dimension inside the band).
+static bool band_has_negative_dep_component(const PlutoProg *prog,
+                                            const Band *band, unsigned depth) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (dep->satisfied && dep->satisfaction_level < (int)band->loop->depth)
+      continue;
+    if (!pluto_stmt_is_member_of(prog->stmts[dep->src]->id, band->loop->stmts,
+                                 band->loop->nstmts) ||
+        !pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, band->loop->stmts,
+                                 band->loop->nstmts))
+      continue;
+    if (dep->dirvec[depth] == DEP_STAR || dep->dirvec[depth] == DEP_MINUS)
+      return true;
+  }
+  return false;
+}
+
 /// Transform a band of dimensions to get a wavefront (a wavefront of tiles
 /// typically). Returns true if something was done, false otherwise.
 bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
@@ -401,8 +423,10 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
       if (pluto_is_hyperplane_scalar(band->loop->stmts[j], depth))
         break;
     }
-    if (j == band->loop->nstmts) {
-      /* All of them are loops */
+    if (j == band->loop->nstmts &&
+        !band_has_negative_dep_component(prog, band, depth)) {
+      /* All of them are loops, and adding this dimension to the first one keeps
+       * all dependences non-negative */
       loop_depths[nloops++] = depth;
     }
   }
-- 
2.43.0


From f4595b45ba1abc69d1a61041864f5e4b920b3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:51 +0000
Subject: [PATCH 02/37] fix: don't abort on statement domains that are unions

The parameter context was being built by adding up projections of statement
domains; this asserted on a domain with more than one disjunct.
---
 lib/pluto.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7ccd33f..2eb1df6 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -1163,6 +1163,9 @@ void normalize_domains(PlutoProg *prog) {
         pluto_constraints_alloc(prog->nstmts * npar, npar + 1, prog->context);
     pluto_constraints_set_names(param_context, prog->params);
     for (i = 0; i < prog->nstmts; i++) {
+      /* The parameter constraints of a union aren't convex in general. */
+      if (prog->stmts[i]->domain->next)
+        continue;
       PlutoConstraints *copy = pluto_constraints_dup(prog->stmts[i]->domain);
       for (unsigned j = 0; j < prog->stmts[i]->dim_orig; j++) {
         fourier_motzkin_eliminate(copy, 0);
-- 
2.43.0


From f7683ecea7be8496f7aecfc3d898ed9828cbd93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:45 +0000
Subject: [PATCH 03/37] fix: map constant positions to tile space when tiling
 mixed dimensions

A dimension of a band can be a loop for some statements and a scalar for
others. The tile coordinate of the latter was their untiled position instead
of the tile that contains it, which reordered them with respect to the tiles
of the other statements.
---
 lib/tile.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/tile.c b/lib/tile.c
index be11e3b..bcf6b83 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -114,6 +114,12 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
 
   unsigned num_domain_supernodes[band->loop->nstmts];
 
+  /* Dimensions of the band that are scalar for all of its statements. */
+  bool is_scalar_dim[band->width];
+  for (unsigned depth = firstD; depth <= lastD; depth++) {
+    is_scalar_dim[depth - firstD] = pluto_is_depth_scalar(band->loop, depth);
+  }
+
   for (unsigned s = 0; s < band->loop->nstmts; s++) {
     num_domain_supernodes[s] = 0;
   }
@@ -198,6 +204,13 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
               stmt->trans
                   ->val[firstD + (depth - firstD) + 1 + (depth - firstD)][j];
         }
+        if (!is_scalar_dim[depth - firstD]) {
+          /* Other statements have a loop here that is being tiled; this
+           * statement's constant position has to be mapped to tile space too */
+          int64_t *pos = &stmt->trans->val[depth][stmt->dim + npar];
+          int size = tile_sizes[depth - firstD];
+          *pos = (*pos >= 0) ? *pos / size : -((-*pos + size - 1) / size);
+        }
       }
       stmt->num_tiled_loops++;
       stmt->first_tile_dim = firstD;
-- 
2.43.0


From 59b9b005c62caea487c2f364c92f55b80bcc6eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 04/37] fix: don't leave dependences unsatisfied on diamond
 tile reschedule

The evicted hyperplane need not satisfy all dependences that were satisfied
by the one that replaced it. Keep the latter inside tiles in such cases.
---
 lib/tile.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/tile.c b/lib/tile.c
index bcf6b83..083b492 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -304,7 +304,13 @@ void pluto_tile(PlutoProg *prog) {
     if (retval) {
       pluto_compute_dep_directions(prog);
       pluto_compute_dep_satisfaction(prog);
-      if (!options->silent) {
+      if (!deps_satisfaction_check(prog)) {
+        /* A dependence was being satisfied only by the hyperplane that led to
+         * concurrent start; swap it back in */
+        pluto_diamond_tile_reschedule(prog);
+        pluto_compute_dep_directions(prog);
+        pluto_compute_dep_satisfaction(prog);
+      } else if (!options->silent) {
         printf("[Pluto] After intra_tile reschedule\n");
         pluto_transformations_pretty_print(prog);
       }
-- 
2.43.0


From 605484214ccbfaf6a112cf6728e7b1c153930add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 05/37] fix: consider partially satisfied dependences for
 permutable bands

A dependence whose instances are satisfied at different levels has no
satisfaction level, and was being ignored while determining permutable bands.
---
 lib/polyloop.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index bdb8da7..2632a6f 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -783,15 +783,14 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
       if (IS_RAR(dep->type))
         continue;
       assert(dep->satvec != NULL);
-      /* Dependences satisfied outer to the band don't matter */
-      if (dep->satisfaction_level < loop->depth)
-        continue;
-      /* Dependences not satisfied yet don't matter */
-      if (!dep->satisfied)
+      /* Dependences satisfied outer to the band don't matter; those that
+       * aren't satisfied at any single level do */
+      if (dep->satisfied && dep->satisfaction_level < (int)loop->depth)
         continue;
       /* Dependences satisfied in previous scalar dimensions in the band
        * don't count as well (i.e., they can have negative components) */
-      if (pluto_is_depth_scalar(loop, dep->satisfaction_level))
+      if (dep->satisfied &&
+          pluto_is_depth_scalar(loop, dep->satisfaction_level))
         continue;
       /* Rest of the dependences need to have non-negative components */
       if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, loop->stmts,
-- 
2.43.0


From 47ace9744af22cfa8e0712a49dac86e2bd7849fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 06/37] fix: don't report inner loops as parallel with innerpar
 when they aren't

With innerpar, the wavefront is not created; the dependence satisfaction
vectors were nevertheless being updated as if it were, and loops that carry
dependences were being reported as parallel.
---
 lib/tile.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 083b492..79cbd97 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -423,13 +423,14 @@ static bool band_has_negative_dep_component(const PlutoProg *prog,
 /// Transform a band of dimensions to get a wavefront (a wavefront of tiles
 /// typically). Returns true if something was done, false otherwise.
 bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
-  /* No need to create tile schedule */
-  if (pluto_loop_is_parallel(prog, band->loop))
-    return false;
-
   PlutoContext *context = prog->context;
   PlutoOptions *options = context->options;
 
+  /* No need to create tile schedule; with pure inner parallelism, there is no
+   * wavefront, and the loops that are not parallel stay that way */
+  if (options->innerpar || pluto_loop_is_parallel(prog, band->loop))
+    return false;
+
   /* A band can have scalar dimensions; it starts from a loop */
   int loop_depths[band->width];
   loop_depths[0] = band->loop->depth;
@@ -473,14 +474,12 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
    * become parallel */
   int first = band->loop->depth;
 
-  if (!options->innerpar) {
-    /* Create the wavefront */
-    for (unsigned i = 0; i < band->loop->nstmts; i++) {
-      Stmt *stmt = band->loop->stmts[i];
-      for (unsigned k = 1; k <= nip_dims; k++) {
-        for (unsigned j = 0; j < stmt->trans->ncols; j++) {
-          stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
-        }
+  /* Create the wavefront */
+  for (unsigned i = 0; i < band->loop->nstmts; i++) {
+    Stmt *stmt = band->loop->stmts[i];
+    for (unsigned k = 1; k <= nip_dims; k++) {
+      for (unsigned j = 0; j < stmt->trans->ncols; j++) {
+        stmt->trans->val[first][j] += stmt->trans->val[loop_depths[k]][j];
       }
     }
   }
-- 
2.43.0


From 3db96f3964899074c34bb775081583f8cfea66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:39 +0000
Subject: [PATCH 07/37] fix: don't tile loops that others are fused with at a
 scalar dimension

A statement with a scalar dimension at a loop's depth isn't part of that loop
though it is fused with it. Tiling the loop misaligned the two and could
violate dependences between them.
---
 lib/polyloop.c | 24 ++++++++++++++++++++++++
 lib/program.h  |  2 ++
 lib/tile.c     |  2 +-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 2632a6f..3babb4c 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -770,11 +770,35 @@ bool pluto_is_depth_scalar(Ploop *loop, int depth) {
   return true;
 }
 
+/* Returns true if a dependence, which isn't satisfied outside of this loop,
+ * exists between a statement of the loop and one that isn't (the latter has a
+ * scalar dimension at the loop's depth and is fused with it). The loop's
+ * statements can't be transformed without regard to the other one then. */
+bool pluto_loop_has_fused_outside_stmt(const Ploop *loop,
+                                       const PlutoProg *prog) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (dep->satisfied && dep->satisfaction_level < (int)loop->depth)
+      continue;
+    if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, loop->stmts,
+                                loop->nstmts) !=
+        pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, loop->stmts,
+                                loop->nstmts))
+      return true;
+  }
+  return false;
+}
+
 /* Returns a non-trivial permutable band starting from this loop; NULL
  * if the band is trivial (just the loop itself */
 Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
   int i, depth;
 
+  if (pluto_loop_has_fused_outside_stmt(loop, prog))
+    return NULL;
+
   depth = loop->depth;
 
   do {
diff --git a/lib/program.h b/lib/program.h
index 51dda38..d89b481 100644
--- a/lib/program.h
+++ b/lib/program.h
@@ -86,6 +86,8 @@ void pluto_separate_stmts(PlutoProg *prog, Stmt **stmts, int num, int level,
 
 bool pluto_is_hyperplane_scalar(const Stmt *stmt, int level);
 bool pluto_is_depth_scalar(Ploop *loop, int depth);
+bool pluto_loop_has_fused_outside_stmt(const Ploop *loop,
+                                       const PlutoProg *prog);
 int pluto_stmt_is_member_of(int stmt_id, Stmt **slist, int len);
 PlutoAccess **pluto_get_all_waccs(const PlutoProg *prog, int *num);
 int pluto_stmt_is_subset_of(Stmt **s1, int n1, Stmt **s2, int n2);
diff --git a/lib/tile.c b/lib/tile.c
index 79cbd97..f9f5812 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -252,7 +252,7 @@ void pluto_tile(PlutoProg *prog) {
         if (is_loop_dominated(loops[i], bands[j]->loop, prog))
           break;
       }
-      if (j == nbands) {
+      if (j == nbands && !pluto_loop_has_fused_outside_stmt(loops[i], prog)) {
         bands = (Band **)realloc(bands, (nbands + 1) * sizeof(Band *));
         bands[nbands++] = pluto_band_alloc(loops[i], 1);
       }
-- 
2.43.0


From 57358569a35b8b5cb1d350487821af145106d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:12 +0000
Subject: [PATCH 08/37] fix: don't let diamond tiling make a statement's
 hyperplanes dependent

The hyperplane that enables concurrent start could be linearly dependent on
the remaining ones of a statement of the band; the search for the remaining
hyperplanes then failed an assertion.
---
 lib/pluto.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 2eb1df6..9990d87 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2266,8 +2266,10 @@ bool pluto_diamond_tile(PlutoProg *prog) {
           printf("[pluto] Transformations before concurrent start enable\n"));
       IF_DEBUG(pluto_transformations_pretty_print(prog););
       IF_DEBUG(pluto_print_hyperplane_properties(prog););
+      bool rank_lost = false;
       for (i = 0; i < band->loop->nstmts; i++) {
         Stmt *stmt = band->loop->stmts[i];
+        unsigned num_ind_hyps = pluto_stmt_get_num_ind_hyps(stmt);
         /* Since we do concurrent start only once */
         assert(stmt->evicted_hyp == NULL);
         stmt->evicted_hyp = pluto_matrix_alloc(1, stmt->trans->ncols, context);
@@ -2276,7 +2278,20 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         copy_hyperplane(stmt->trans->val[evict_pos],
                         cone_complement_hyps[i]->val[0], stmt->trans->ncols);
         stmt->evicted_hyp_pos = evict_pos;
+        if (pluto_stmt_get_num_ind_hyps(stmt) < num_ind_hyps)
+          rank_lost = true;
       }
+      /* The new hyperplane has to be linearly independent of the remaining ones
+       * for all statements; put the evicted ones back otherwise */
+      for (i = 0; rank_lost && i < band->loop->nstmts; i++) {
+        Stmt *stmt = band->loop->stmts[i];
+        copy_hyperplane(stmt->trans->val[evict_pos], stmt->evicted_hyp->val[0],
+                        stmt->trans->ncols);
+        pluto_matrix_free(stmt->evicted_hyp);
+        stmt->evicted_hyp = NULL;
+      }
+      if (rank_lost)
+        conc_start_enabled_band = 0;
     }
 
     conc_start_enabled |= conc_start_enabled_band;
-- 
2.43.0


From 456eca56c8e0e70de6a904d54565e023248bebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:51 +0000
Subject: [PATCH 09/37] fix: don't abort when no loop of a nest is permutable

---
 lib/polyloop.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 3babb4c..8042725 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -830,6 +830,11 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
     depth++;
   } while (depth < prog->num_hyperplanes);
 
+  /* Dependences not satisfied at any single level can have negative components
+   * right from the loop itself */
+  if (depth == (int)loop->depth)
+    return NULL;
+
   /* Peel off scalar dimensions from the end */
   while (pluto_is_depth_scalar(loop, depth - 1))
     depth--;
-- 
2.43.0


From 37cf1f38ad3b18a574cc91d1207d987a68d8a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:17 +0000
Subject: [PATCH 10/37] fix: don't move a loop past statements fused with it at
 a scalar dimension

---
 lib/post_transform.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/post_transform.c b/lib/post_transform.c
index 7995386..3ce39cd 100644
--- a/lib/post_transform.c
+++ b/lib/post_transform.c
@@ -416,7 +416,10 @@ static bool make_parallel_loop_innermost(Band *band, unsigned num_tiled_levels,
   Ploop **par_loops = (Ploop **)malloc(nloops * sizeof(Ploop *));
   unsigned innermost_loop_depth = band->loop->depth;
   for (unsigned i = 0; i < nloops; i++) {
-    if (pluto_loop_is_parallel(prog, loops[i])) {
+    /* Moving the loop inward moves it past the statements it is fused with at
+     * a scalar dimension */
+    if (pluto_loop_is_parallel(prog, loops[i]) &&
+        !pluto_loop_has_fused_outside_stmt(loops[i], prog)) {
       par_loops[nploops++] = loops[i];
     }
     if (loops[i]->depth > innermost_loop_depth) {
@@ -490,7 +493,8 @@ bool pluto_intra_tile_optimize_band(Band *band, int num_tiled_levels,
                                           depth, prog, &nloops);
     Ploop *best_loop = get_best_vectorizable_loop(loops, nloops, prog);
 
-    if (best_loop && !pluto_loop_is_innermost(best_loop, prog)) {
+    if (best_loop && !pluto_loop_is_innermost(best_loop, prog) &&
+        !pluto_loop_has_fused_outside_stmt(best_loop, prog)) {
       IF_DEBUG(printf("[pluto] intra_tile_opt: loop to be made innermost: "););
       IF_DEBUG(pluto_loop_print(best_loop););
 
-- 
2.43.0


From 2185f9188480db54d6c8fad8a3fa0428f12cf3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:33 +0000
Subject: [PATCH 11/37] fix: return parallel loops from pluto_schedule_str and
 don't free twice

---
 lib/plutolib.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index db5221c..8d52154 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -520,13 +520,19 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
     return NULL;
   }
 
+  if (context->options->parallel) {
+    *ploops = pluto_get_parallel_loops(prog, nploops);
+    if (!context->options->silent)
+      pluto_loops_print(*ploops, *nploops);
+  }
+
   Remapping *remapping = pluto_get_remapping(prog);
   *remap = remapping;
 
+  /* This takes ownership of 'space' */
   isl_union_map *schedules = pluto_schedules_to_isl(prog, space, ctx);
 
   pluto_prog_free(prog);
-  isl_space_free(space);
 
   return schedules;
 }
@@ -544,7 +550,7 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
                         char **schedules_str_buffer_ptr, char **p_loops,
                         Remapping **remapping_ptr, PlutoContext *context) {
   isl_ctx *ctx = isl_ctx_alloc();
-  Ploop **ploop;
+  Ploop **ploop = NULL;
   unsigned nploop = 0, i;
   Remapping *remapping;
 
@@ -558,10 +564,6 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
   *remapping_ptr = remapping;
 
   if (context->options->parallel) {
-    if (!context->options->silent) {
-      pluto_loops_print(ploop, nploop);
-    }
-
     // NOTE: assuming max 4 digits
     // number of parallel loops
     char *str = (char *)(malloc(sizeof(char) * 5));
@@ -579,18 +581,18 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       sprintf(str, "%d", ploop[i - 1]->depth + 1);
       strcat(p_loops[0], str);
     }
+    free(str);
+    pluto_loops_free(ploop, nploop);
   }
 
   isl_printer *printer = isl_printer_to_str(ctx);
-  isl_printer_print_union_map(printer, schedule);
+  printer = isl_printer_print_union_map(printer, schedule);
 
   *schedules_str_buffer_ptr = isl_printer_get_str(printer);
   assert(*schedules_str_buffer_ptr != NULL && "isl printer providing empty"
                                               " string");
 
   isl_printer_free(printer);
-  isl_union_set_free(domains);
-  isl_union_map_free(dependences);
   isl_union_map_free(schedule);
 
   isl_ctx_free(ctx);
-- 
2.43.0


From 93d9a1e7364a6c0c0b9bcf43961914f4926a6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:27 +0000
Subject: [PATCH 12/37] fix: don't crash on failure in the string interface

---
 lib/plutolib.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 8d52154..1721504 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -513,6 +513,7 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   if (pluto_schedule_prog(prog)) {
     /* Failure */
     pluto_prog_free(prog);
+    isl_space_free(space);
 
     if (!context->options->silent) {
       printf("[libpluto] failure, returning NULL schedules\n");
@@ -552,7 +553,7 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
   isl_ctx *ctx = isl_ctx_alloc();
   Ploop **ploop = NULL;
   unsigned nploop = 0, i;
-  Remapping *remapping;
+  Remapping *remapping = NULL;
 
   isl_union_set *domains = isl_union_set_read_from_str(ctx, domains_str);
   isl_union_map *dependences =
@@ -563,6 +564,15 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
       domains, dependences, &ploop, &nploop, &remapping, context);
   *remapping_ptr = remapping;
 
+  if (!schedule) {
+    /* Failure */
+    *schedules_str_buffer_ptr = NULL;
+    if (context->options->parallel)
+      p_loops[0] = NULL;
+    isl_ctx_free(ctx);
+    return;
+  }
+
   if (context->options->parallel) {
     // NOTE: assuming max 4 digits
     // number of parallel loops
@@ -608,8 +618,13 @@ void pluto_get_remapping_str(const char *domains_str,
 
   Remapping *remapping_l =
       pluto_schedule_and_get_remapping(domains, dependences, context);
-  *remapping = *remapping_l;
-  free(remapping_l);
+  if (remapping_l) {
+    *remapping = *remapping_l;
+    free(remapping_l);
+  } else {
+    /* Failure */
+    memset(remapping, 0, sizeof(Remapping));
+  }
   isl_ctx_free(ctx);
 };
 
-- 
2.43.0


From ca91a140180ebdf6914cf92ab63fe9bb772afd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:29 +0000
Subject: [PATCH 13/37] fix: dependences on wrapped accesses could keep
 existential variables (abort in pluto_schedule)

---
 lib/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 391f1f6..81df6f4 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -374,8 +374,6 @@ static isl_stat basic_map_extract_dep(__isl_take isl_basic_map *bmap,
 
   stmts = info->stmts;
 
-  bmap = isl_basic_map_remove_divs(bmap);
-
   dep = info->deps[info->index];
 
   dep->id = info->index;
@@ -394,6 +392,8 @@ static isl_stat basic_map_extract_dep(__isl_take isl_basic_map *bmap,
     isl_space_free(space);
     space = isl_basic_map_get_space(bmap);
   }
+  /* Only now: dropping the accessed element above can introduce divs */
+  bmap = isl_basic_map_remove_divs(bmap);
   dep->dest = atoi(isl_space_get_tuple_name(space, isl_dim_out) + 2);
   dep->dpolytope = isl_basic_map_to_pluto_constraints(bmap, info->context);
   dep->bounding_poly = pluto_constraints_dup(dep->dpolytope);
-- 
2.43.0


From ad173f1ef26da88d01a03d3e3fe4131af2edfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 14/37] fix: don't lose dependence satisfaction to concurrent
 start hyperplanes

---
 lib/pluto.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 9990d87..b6f5722 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2267,6 +2267,8 @@ bool pluto_diamond_tile(PlutoProg *prog) {
       IF_DEBUG(pluto_transformations_pretty_print(prog););
       IF_DEBUG(pluto_print_hyperplane_properties(prog););
       bool rank_lost = false;
+      pluto_compute_dep_satisfaction(prog);
+      int num_unsatisfied = get_num_unsatisfied_deps(prog->deps, prog->ndeps);
       for (i = 0; i < band->loop->nstmts; i++) {
         Stmt *stmt = band->loop->stmts[i];
         unsigned num_ind_hyps = pluto_stmt_get_num_ind_hyps(stmt);
@@ -2282,7 +2284,11 @@ bool pluto_diamond_tile(PlutoProg *prog) {
           rank_lost = true;
       }
       /* The new hyperplane has to be linearly independent of the remaining ones
-       * for all statements; put the evicted ones back otherwise */
+       * for all statements, and dependences shouldn't lose their satisfaction;
+       * put the evicted ones back otherwise */
+      pluto_compute_dep_satisfaction(prog);
+      rank_lost |=
+          get_num_unsatisfied_deps(prog->deps, prog->ndeps) > num_unsatisfied;
       for (i = 0; rank_lost && i < band->loop->nstmts; i++) {
         Stmt *stmt = band->loop->stmts[i];
         copy_hyperplane(stmt->trans->val[evict_pos], stmt->evicted_hyp->val[0],
@@ -2290,8 +2296,10 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         pluto_matrix_free(stmt->evicted_hyp);
         stmt->evicted_hyp = NULL;
       }
-      if (rank_lost)
+      if (rank_lost) {
+        pluto_compute_dep_satisfaction(prog);
         conc_start_enabled_band = 0;
+      }
     }
 
     conc_start_enabled |= conc_start_enabled_band;
-- 
2.43.0


From 020e1e7c58a3fb44bfa744d9c7319ba70a345b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:16 +0000
Subject: [PATCH 15/37] fix: tile size model failed on degenerate reuse
 polynomials and read past the band's loops

---
 lib/tile_size_selection_model.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/tile_size_selection_model.cpp b/lib/tile_size_selection_model.cpp
index 20c62a7..3309ff4 100644
--- a/lib/tile_size_selection_model.cpp
+++ b/lib/tile_size_selection_model.cpp
@@ -112,10 +112,16 @@ static unsigned approximate_to_nearest_multiple(unsigned num, unsigned factor) {
 /// external library to solve higher degee polynomials.
 unsigned TileSizeSelectionModel::solve_reuse_expression() {
 
+  // Zero coefficients don't contribute to the degree.
+  while (reuse_polynomial.size() > 1 && reuse_polynomial.back() == 0.0f)
+    reuse_polynomial.pop_back();
+
   // Just a constant. return anything
   if (reuse_polynomial.size() < 2)
     return 0;
-  assert(reuse_polynomial.size() >= 2 and reuse_polynomial[0] < 0.0f);
+  // The part that doesn't depend on tile sizes is already too large.
+  if (reuse_polynomial[0] >= 0.0f)
+    return 0;
 
   // If quadratic, find the exact roots. Else approximate.
   if (reuse_polynomial.size() == 3) {
@@ -188,7 +194,8 @@ std::vector<unsigned> TileSizeSelectionModel::infer_tile_sizes(unsigned root) {
     }
     if (i == min_reuse_dim)
       continue;
-    float dim_reuse_ratio = dimReuse[i] / min_dim_reuse;
+    float dim_reuse_ratio =
+        min_dim_reuse > 0.0f ? dimReuse[i] / min_dim_reuse : 1.0f;
     tile_sizes[i] = dim_reuse_ratio * min_tile_size;
     round_tile_sizes_wrt_unroll_jam_factor(tile_sizes[i], unroll_jam_factor);
   }
@@ -291,11 +298,15 @@ unsigned TileSizeSelectionModel::compute_tile_footprint_coefficient_for_access(
           continue;
         }
 
+        // Not a loop of this band.
+        if (loops[j]->depth - depth >= dimReuse.size())
+          continue;
+
         has_non_vector_dim_in_access = true;
         IF_DEBUG2(
             printf("loop_depth : %d, loops[%d]->depth: %d, dim_reuse: %0.5f, "
                    "depth: %d, DimReuse size: %ld\n",
-                   loop_depth, j, loops[j]->depth, dimReuse[loops[j]->depth],
+                   loop_depth, j, loops[j]->depth, dimReuse[loops[j]->depth - depth],
                    depth, dimReuse.size()););
         gamma_i = gamma_i + dimReuse[loops[j]->depth - depth];
       }
@@ -357,6 +368,7 @@ void TileSizeSelectionModel::construct_expression_for_tile_volume(
   std::set<PlutoAccess *> distinctAccesses =
       get_distinct_accesses_in_band(band, prog);
   unsigned max_degree = 0;
+  reuse_polynomial.resize(1);
 
   // Compute the tile footprint access-wise. Tile footprint is computed
   // according to dimensional reuse.
@@ -378,8 +390,6 @@ void TileSizeSelectionModel::construct_expression_for_tile_volume(
     IF_DEBUG2(printf("Coefficient: %0.5f, degree :%d\n", coefficient, degree););
 
     if (degree == 0) {
-      if (reuse_polynomial.size() == 0)
-        reuse_polynomial.resize(1);
       reuse_polynomial[0] += coefficient;
       pluto_access_free(acc);
       continue;
@@ -484,6 +494,9 @@ static std::vector<float> get_dimensional_reuse(Band *band, PlutoProg *prog) {
                                         depth, prog, &nloops);
 
   for (unsigned i = 0; i < nloops; i++) {
+    // Not a loop of this band.
+    if (loops[i]->depth - depth >= band->width)
+      continue;
     dimReuse[loops[i]->depth - depth] = get_dimensional_reuse(loops[i]);
     // TODO: Use the following if we want to only consider distinct accesses.
     // To be experimented if this gives better results.
@@ -617,7 +630,7 @@ static std::vector<unsigned> find_tile_sizes(Band *band, PlutoProg *prog) {
   }
 
   // Set the dimensional reuse of diamond tiling hyperplanes to be the same.
-  if (prog->is_diamond_tiled)
+  if (prog->is_diamond_tiled && dimReuse.size() > 1)
     dimReuse[0] = dimReuse[1];
 
   IF_DEBUG(printf("After normalization\n"););
-- 
2.43.0


From 02de4c77b1619e462fc1962559943a78fc03ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:50 +0000
Subject: [PATCH 16/37] fix: leak of read-after-read dependences in
 pluto_schedule

---
 lib/plutolib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 1721504..290c6b3 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -439,6 +439,8 @@ __isl_give isl_union_map *pluto_schedule(__isl_take isl_union_map *schedules,
   compute_deps_isl(reads, writes, schedules, empty, &dep_raw, &dep_war,
                    &dep_waw, &dep_rar, NULL, NULL, options);
   isl_union_map_free(empty);
+  if (options->rar)
+    isl_union_map_free(dep_rar);
 
   isl_union_map *dependences = isl_union_map_union(dep_raw, dep_war);
   dependences = isl_union_map_union(dependences, dep_waw);
-- 
2.43.0


From c7b50e29c55bae85c203412dfe716f33a76f2a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:50 +0000
Subject: [PATCH 17/37] fix: null dereference in pluto_schedule with lastwriter
 and isldepcoalesce

---
 lib/program.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index 81df6f4..a17dd63 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -688,7 +688,7 @@ void compute_deps_isl(__isl_keep isl_union_map *reads,
     *dep_war = isl_union_map_coalesce(*dep_war);
     *dep_waw = isl_union_map_coalesce(*dep_waw);
 
-    if (options->lastwriter) {
+    if (options->lastwriter && trans_dep_war && trans_dep_waw) {
       *trans_dep_war = isl_union_map_coalesce(*trans_dep_war);
       *trans_dep_waw = isl_union_map_coalesce(*trans_dep_waw);
     }
-- 
2.43.0


From d9686fd726a5212f79af1c011c7b83284a34e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:17 +0000
Subject: [PATCH 18/37] fix: replace the right intra-tile loop after diamond
 tiling

The intra-tile loop was looked up by the number of domain supernodes added,
which is neither the number of dimensions added by tiling (scalar dimensions of
a band don't add any) nor does it tell that the dimension was tiled at all.
---
 lib/tile.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index f9f5812..3d44336 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -85,17 +85,29 @@ static int read_tile_sizes(int *tile_sizes, int *second_level_tile_size_ratios,
 int pluto_diamond_tile_reschedule(PlutoProg *prog) {
   int retval = 0;
 
+  /* The dimension of the evicted hyperplane should have been tiled for all of
+   * the statements; otherwise, there is no intra-tile loop to replace */
+  for (int i = 0; i < prog->nstmts; i++) {
+    Stmt *stmt = prog->stmts[i];
+    if (stmt->evicted_hyp && (stmt->num_tiled_loops == 0 ||
+                              stmt->evicted_hyp_pos < stmt->first_tile_dim ||
+                              stmt->evicted_hyp_pos > stmt->last_tile_dim))
+      return 0;
+  }
+
   for (int i = 0; i < prog->nstmts; i++) {
     if (prog->stmts[i]->evicted_hyp) {
-      int evicted_hyp_pos = prog->stmts[i]->evicted_hyp_pos;
+      /* Scalar dimensions of a band are also strip-mined (trivially) */
+      int row =
+          prog->stmts[i]->evicted_hyp_pos + prog->stmts[i]->num_tiled_loops;
       int fl = prog->stmts[i]->dim - prog->stmts[i]->dim_orig;
       PlutoMatrix *evicted_hyp = prog->stmts[i]->evicted_hyp;
       assert(fl + evicted_hyp->ncols == prog->stmts[i]->trans->ncols);
       for (unsigned j = 0; j < evicted_hyp->ncols; j++) {
         int64_t tmp = evicted_hyp->val[0][j];
         evicted_hyp->val[0][j] =
-            prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j];
-        prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j] = tmp;
+            prog->stmts[i]->trans->val[row][fl + j];
+        prog->stmts[i]->trans->val[row][fl + j] = tmp;
       }
       retval = 1;
     }
-- 
2.43.0


From 7b79c6b6b29395524f870ecfc7e489f4e826dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 19/37] fix: negate the constant too when negating a constraint

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bb8a334..96324a4 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1735,7 +1735,7 @@ void pluto_constraints_negate_constraint(PlutoConstraints *cst, int pos) {
 
   assert(cst->next == NULL);
 
-  for (j = 0; j < cst->ncols - 1; j++) {
+  for (j = 0; j < cst->ncols; j++) {
     cst->val[pos][j] = -cst->val[pos][j];
   }
   cst->val[pos][cst->ncols - 1]--;
-- 
2.43.0


From 3f8e63e88b1842ab88e35e9854f8a720e7a6199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 20/37] fix: do not truncate the later disjuncts when adding
 constraints to each

---
 lib/constraints.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 96324a4..31dba17 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -313,7 +313,8 @@ PlutoConstraints *pluto_constraints_add_to_each(PlutoConstraints *cst1,
   assert(cst1->ncols == cst2->ncols);
 
   if (cst1->nrows + cst2->nrows > cst1->alloc_nrows) {
-    pluto_constraints_resize(cst1, cst1->nrows + cst2->nrows, cst1->ncols);
+    pluto_constraints_resize_single(cst1, cst1->nrows + cst2->nrows,
+                                    cst1->ncols);
   } else {
     cst1->nrows = cst1->nrows + cst2->nrows;
   }
-- 
2.43.0


From 96d8ab3cc760517e2e06514115094ed130fd3e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 21/37] fix: free the names of a copied-over constraint system
 with its own dimensions

---
 lib/constraints.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 31dba17..342e245 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -611,14 +611,10 @@ PlutoConstraints *pluto_constraints_copy_single(PlutoConstraints *dest,
                                     PLMAX(src->ncols, dest->alloc_ncols));
   }
 
-  /* Resize above may not be needed; need to still free all names;
-   * they will be reassigned */
-  if (dest->names) {
-    for (int i = 0; i < (int)dest->ncols - 1; i++) {
-      free(dest->names[i]);
-      dest->names[i] = NULL;
-    }
-  }
+  /* Resize above may not be needed; need to still free all names (while
+   * dest->ncols is still the number they were allocated for); they will be
+   * reassigned */
+  pluto_constraints_remove_names_single(dest);
 
   dest->nrows = src->nrows;
   dest->ncols = src->ncols;
@@ -630,8 +626,6 @@ PlutoConstraints *pluto_constraints_copy_single(PlutoConstraints *dest,
   memcpy(dest->is_eq, src->is_eq, dest->nrows * sizeof(int));
   if (src->names) {
     pluto_constraints_set_names(dest, src->names);
-  } else {
-    pluto_constraints_remove_names_single(dest);
   }
 
   return dest;
-- 
2.43.0


From 75837a539efb50308a81db0169fd6faef1c26c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 22/37] fix: reduce all columns when bringing a matrix into row
 echelon form

---
 lib/math_support.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index bb23abd..2704919 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -455,7 +455,7 @@ PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
   int i, j, k, r, _lcm, factor1;
 
   r = 0;
-  for (i = 0; i < PLMIN(mat->ncols, mat->nrows); i++) {
+  for (i = 0; i < mat->ncols && r < mat->nrows; i++) {
     if (mat->val[r][i] == 0) {
       for (k = r + 1; k < mat->nrows; k++) {
         if (mat->val[k][i] != 0)
-- 
2.43.0


From d106099f0a0814c47285ed8bb303f41bbf30081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 23/37] fix: complete the transitive closure

---
 lib/ddg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index ad49d2f..259eb88 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -102,9 +102,9 @@ Graph *get_undirected_graph(const Graph *g) {
 /// Compute the transitive closure of the graph using Floyd-Warshall algorithm.
 void compute_transitive_closure(Graph *g) {
   int i, j, k;
-  for (i = 0; i < g->nVertices; i++) {
-    for (j = 0; j < g->nVertices; j++) {
-      for (k = 0; k < g->nVertices; k++) {
+  for (k = 0; k < g->nVertices; k++) {
+    for (i = 0; i < g->nVertices; i++) {
+      for (j = 0; j < g->nVertices; j++) {
         g->adj->val[i][j] =
             ((g->adj->val[i][j]) || (g->adj->val[i][k] && g->adj->val[k][j]));
       }
-- 
2.43.0


From 4bee3d17e327f3c502dcb06d9527911e0e0a72b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 24/37] fix: keep the component number found by the search

---
 lib/pluto.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index b6f5722..4fea28e 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2004,9 +2004,7 @@ void ddg_compute_cc(PlutoProg *prog) {
       num_cc++;
       gU->vertices[i].cc_id = cc_id;
       dfs_vertex(gU, &gU->vertices[i], &time);
-      gU->vertices[i].cc_id = cc_id;
     }
-    gU->vertices[i].cc_id = cc_id;
     g->vertices[i].cc_id = gU->vertices[i].cc_id;
     stmt_id = g->vertices[i].id;
     assert(stmt_id == i);
-- 
2.43.0


From 8d1c4d5b553cebc4e3891b60eb163d618423e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:08 +0000
Subject: [PATCH 25/37] fix: keep the code after a scop whose end marker has
 several blanks

inscop accepted several blanks in '#pragma  scop' but a single one in
'#pragma endscop', and dropped everything after the region otherwise.
---
 inscop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inscop b/inscop
index da42d06..b67fae9 100755
--- a/inscop
+++ b/inscop
@@ -18,7 +18,7 @@ grep -B $MAXLINES -m 1 "#pragma[[:space:]]\+scop" $1 | grep -v "#pragma[[:space:
 # Get the FIRST endscop and return all the lines below it
 # We want to get all the text below the first endscop, but do not want that first endscop line to be returned
 # which is accomplished with the awk call at the end.
-sed -n '/\#pragma[[:space:]]endscop/,$p' $1 | awk '{if(NR>1)print}' > .tail
+sed -n '/\#pragma[[:space:]]\+endscop/,$p' $1 | awk '{if(NR>1)print}' > .tail
 #grep -A $MAXLINES "#pragma[[:space:]]\+endscop" $1 | grep -v "#pragma[[:space:]]\+endscop" > .tail
 
 cat .head > __tmp
-- 
2.43.0


From 848a88f1ceb733896acb3efcb8cc0fb43b969f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:08 +0000
Subject: [PATCH 26/37] fix: do not drop the program's own include of omp.h

inscop removed every line mentioning omp.h from the program even when the
kernel does not bring the include, and left a file __tmpe behind.
---
 inscop | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/inscop b/inscop
index b67fae9..282ac0a 100755
--- a/inscop
+++ b/inscop
@@ -53,12 +53,11 @@ sed -e 's/_NL_DELIMIT_/\n/' >> __tmp
 
 cat .tail >> __tmp
 
-# Checks to see if the OpenMP header has already been inserted into the file
-# If not, insert it.
-if grep -q "#include <omp.h>" __tmp
+# If the OpenMP header comes with the kernel's includes, remove the existing
+# include of it
+if grep -q "^#include <omp.h>" .includes
 	then
-	# Remove the existing omp.h include
-	sed -ie '\/\<omp\.h\>/d'  __tmp
+	sed -i -e '/^#include <omp\.h>/d' __tmp
 fi
 
 cat .head __tmp > $3
-- 
2.43.0


From 61b04da2141670fb53542f7cb5c8f4c0cf2f6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:08 +0000
Subject: [PATCH 27/37] fix: restore the source file when polycc fails or is
 stopped

The clean-up that moves the original source file back was installed only
after all regions had been processed: when the optimizer failed on a later
region, or the script was interrupted, the user's file stayed replaced by a
partly transformed one.
---
 polycc.sh.in | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/polycc.sh.in b/polycc.sh.in
index 63aeefc..a23335f 100644
--- a/polycc.sh.in
+++ b/polycc.sh.in
@@ -71,9 +71,29 @@ if [ "$INDENT" == 1 ] && [ -x /usr/bin/clang-format ]; then
 fi
 }
 
+TEMPFILE=""
+
+cleanup() {
+  # An attempt to move the original file back in place
+  # in the event of an exception.
+  if [ -f "$TEMPFILE" ]
+  then
+    mv $TEMPFILE $SOURCEFILE
+  fi
+  if [ "$DEBUG" != 1 ];
+  then
+    rm -f .regtile .vectorize .pragmas .params .orcc .linearized .nonlinearized \
+      $CLOOGFILE .srcfilename .outfilename .distmem pi.cloog sigma.cloog \
+      *.sysloog .appendfilename
+  fi
+}
+
+# Set up before anything is moved; a signal ends the script.
+trap cleanup EXIT
+trap 'exit 1' SIGINT SIGTERM SIGHUP
+
 run "$*"
 WORK=1
-TEMPFILE=""
 while [ $WORK -eq 1 ]
 do
   if grep -q "#pragma scop" "$PLUTOOUT"
@@ -97,20 +117,3 @@ do
     WORK=0
   fi
 done
-
-cleanup() {
-  # An attempt to move the original file back in place
-  # in the event of an exception.
-  if [ -f "$TEMPFILE" ]
-  then
-    mv $TEMPFILE $SOURCEFILE
-  fi
-  if [ "$DEBUG" != 1 ];
-  then
-    rm -f .regtile .vectorize .pragmas .params .orcc .linearized .nonlinearized \
-      $CLOOGFILE .srcfilename .outfilename .distmem pi.cloog sigma.cloog \
-      *.sysloog .appendfilename
-  fi
-}
-
-trap cleanup SIGINT exit
-- 
2.43.0


From 50d5a36dad2eea4f99a464950c67e9b97ff604cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 28/37] fix: crash on 0-dimensional statements of programs with
 parameters

The names array of a domain isn't allocated when there are no iterators to be
named; the parameter names were written through it nevertheless.
---
 lib/plutolib.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index 290c6b3..bd99257 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -176,9 +176,11 @@ static isl_stat extract_stmt(__isl_take isl_set *set, void *user) {
                                     stmt->dim);
 
   for (int i = 0; i < npar; i++) {
-    char *param = (char *)malloc(13);
-    sprintf(param, "p%d", i);
-    stmt->domain->names[stmt->dim + i] = param;
+    char name[13];
+    sprintf(name, "p%d", i);
+    char *param = name;
+    pluto_constraints_set_names_range(stmt->domain, &param, stmt->dim + i, 0,
+                                      1);
   }
 
   pluto_matrix_free(trans);
-- 
2.43.0


From 29eb69c9bc6af6ecd5e2f3124c8c4cf8ef10dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 29/37] fix: diamond tiling has to keep the band permutable

The hyperplane enabling concurrent start replaced the evicted one even if
dependences had negative components along it in the resulting band, which led
to an illegal tiling.
---
 lib/pluto.c | 12 ++++++++++--
 lib/pluto.h |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 4fea28e..e25fb52 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2282,11 +2282,18 @@ bool pluto_diamond_tile(PlutoProg *prog) {
           rank_lost = true;
       }
       /* The new hyperplane has to be linearly independent of the remaining ones
-       * for all statements, and dependences shouldn't lose their satisfaction;
-       * put the evicted ones back otherwise */
+       * for all statements, dependences shouldn't lose their satisfaction, and
+       * the band has to stay permutable (basecst doesn't constrain dependences
+       * that had already been satisfied by outer hyperplanes of the band); put
+       * the evicted ones back otherwise */
+      pluto_compute_dep_directions(prog);
       pluto_compute_dep_satisfaction(prog);
       rank_lost |=
           get_num_unsatisfied_deps(prog->deps, prog->ndeps) > num_unsatisfied;
+      Band *new_band = pluto_get_permutable_band(band->loop, prog);
+      rank_lost |= !new_band || new_band->width < band->width;
+      if (new_band)
+        pluto_band_free(new_band);
       for (i = 0; rank_lost && i < band->loop->nstmts; i++) {
         Stmt *stmt = band->loop->stmts[i];
         copy_hyperplane(stmt->trans->val[evict_pos], stmt->evicted_hyp->val[0],
@@ -2295,6 +2302,7 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         stmt->evicted_hyp = NULL;
       }
       if (rank_lost) {
+        pluto_compute_dep_directions(prog);
         pluto_compute_dep_satisfaction(prog);
         conc_start_enabled_band = 0;
       }
diff --git a/lib/pluto.h b/lib/pluto.h
index ea37d2d..7ec80da 100644
--- a/lib/pluto.h
+++ b/lib/pluto.h
@@ -657,6 +657,7 @@ Band *pluto_band_dup(Band *band);
 void pluto_bands_print(Band **bands, int num);
 void pluto_band_print(const Band *band);
 
+Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog);
 Band **pluto_get_outermost_permutable_bands(PlutoProg *prog, unsigned *ndbands);
 Ploop *pluto_loop_dup(Ploop *l);
 Ploop *pluto_loop_alloc();
@@ -666,6 +667,7 @@ int pluto_loop_is_parallel_for_stmt(const PlutoProg *prog, const Ploop *loop,
                                     const Stmt *stmt);
 int pluto_loop_has_satisfied_dep_with_component(const PlutoProg *prog,
                                                 const Ploop *loop);
+void pluto_band_free(Band *band);
 void pluto_bands_free(Band **bands, unsigned nbands);
 int pluto_is_hyperplane_loop(const Stmt *stmt, int level);
 void pluto_detect_hyperplane_types(PlutoProg *prog);
-- 
2.43.0


From 73eb914ada2f78c5d75b97ce644ad6169e349108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 30/37] fix: union of domains with more than two pieces lost
 the first ones

pluto_constraints_unionize_simple returned the last piece it had walked to
instead of the head of the list.
---
 lib/constraints.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 342e245..21dbd80 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1925,10 +1925,11 @@ int pluto_constraints_is_empty(const PlutoConstraints *cst) {
 PlutoConstraints *
 pluto_constraints_unionize_simple(PlutoConstraints *cst1,
                                   const PlutoConstraints *cst2) {
-  while (cst1->next != NULL) {
-    cst1 = cst1->next;
+  PlutoConstraints *last = cst1;
+  while (last->next != NULL) {
+    last = last->next;
   }
-  cst1->next = pluto_constraints_dup(cst2);
+  last->next = pluto_constraints_dup(cst2);
   return cst1;
 }
 
-- 
2.43.0


From 27d79b1527f6bd0d92f603822358dcaf72d27dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:11 +0000
Subject: [PATCH 31/37] fix: overflow of the number of rows in Fourier-Motzkin
 elimination

The number of rows an elimination can leave behind was computed with ints; too
little memory was allocated when it overflowed.
---
 lib/constraints.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 21dbd80..ab25b9e 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -69,7 +69,7 @@ PlutoConstraints *pluto_constraints_alloc(int max_rows, int max_cols,
 
   int i;
   for (i = 0; i < max_rows; i++) {
-    cst->val[i] = &cst->buf[i * max_cols];
+    cst->val[i] = &cst->buf[(size_t)i * max_cols];
   }
 
   cst->alloc_nrows = max_rows;
@@ -83,6 +83,20 @@ PlutoConstraints *pluto_constraints_alloc(int max_rows, int max_cols,
   return cst;
 }
 
+/* Allocate constraints for the lb*ub + nb rows an elimination can leave behind;
+ * gives up if there are too many of them to be counted */
+static PlutoConstraints *alloc_for_elimination(int64_t lb, int64_t ub,
+                                               int64_t nb, int ncols,
+                                               PlutoContext *context) {
+  if (lb * ub + nb > INT_MAX) {
+    fprintf(stderr,
+            "[pluto] ERROR: Not enough memory to allocate constraints\n");
+    fprintf(stderr, "[pluto] %ld constraints needed\n", lb * ub + nb);
+    exit(1);
+  }
+  return pluto_constraints_alloc(lb * ub + nb, ncols, context);
+}
+
 /* Initialize entire *allocated* constraints to zero; everything is also
  * initialized to inequality >= 0 */
 void pluto_constraints_zero(PlutoConstraints *cst) {
@@ -532,7 +546,7 @@ void fourier_motzkin_eliminate(PlutoConstraints *cst, unsigned pos) {
         ub++;
       }
     }
-    newcst = pluto_constraints_alloc(lb * ub + nb, cst->ncols, cst->context);
+    newcst = alloc_for_elimination(lb, ub, nb, cst->ncols, cst->context);
     pluto_constraints_copy_single(newcst, cst);
     pluto_constraints_remove_dim(newcst, pos);
     pluto_constraints_zero(newcst);
@@ -2509,8 +2523,7 @@ void fourier_motzkin_eliminate_smart(PlutoConstraints *cst, unsigned pos) {
         ub++;
       }
     }
-    newcst =
-        pluto_constraints_alloc(lb * ub + nb, cst->ncols - 1, cst->context);
+    newcst = alloc_for_elimination(lb, ub, nb, cst->ncols - 1, cst->context);
     newcst->nrows = 0;
 
     p = 0;
-- 
2.43.0


From 2960fd9a222cbda0004d299b7b75fd9a7549b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:19 +0000
Subject: [PATCH 32/37] fix: tile size model run on out-of-date dependence
 properties for the second level

---
 lib/tile.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 3d44336..7f86556 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -374,13 +374,17 @@ void pluto_tile_scattering_dims(PlutoProg *prog, Band **bands, int nbands,
   PlutoOptions *options = context->options;
 
   for (unsigned b = 0; b < nbands; b++) {
-    if (options->find_tile_sizes)
-      find_tile_sizes(bands[b], prog, tile_sizes);
-    else
+    if (options->find_tile_sizes) {
+      /* The model is for the first level; dependence properties are out of date
+       * once that's tiled */
+      if (!tile_second_level)
+        find_tile_sizes(bands[b], prog, tile_sizes);
+    } else {
       read_tile_sizes(tile_sizes, second_level_tile_size_ratios,
                       bands[b]->width, bands[b]->loop->stmts,
                       bands[b]->loop->nstmts, bands[b]->loop->depth,
                       prog->context);
+    }
 
     if (tile_second_level) {
       pluto_tile_band(prog, bands[b], second_level_tile_size_ratios);
-- 
2.43.0


From 833cf4522a78e1638aa747ab0182cf8677b48286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:47 +0000
Subject: [PATCH 33/37] fix: regions whose pragma is written with other blanks
 were left untransformed by polycc

The loop over the regions of a file ended when no "#pragma scop" with a
single blank was left, although the optimizer accepts any blanks there.
---
 polycc.sh.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polycc.sh.in b/polycc.sh.in
index a23335f..aafc0f8 100644
--- a/polycc.sh.in
+++ b/polycc.sh.in
@@ -96,7 +96,7 @@ run "$*"
 WORK=1
 while [ $WORK -eq 1 ]
 do
-  if grep -q "#pragma scop" "$PLUTOOUT"
+  if grep -q "#pragma[[:space:]]\+scop" "$PLUTOOUT"
   then
     # Move the original file into a temporary location
     TEMPFILE="$SOURCEFILE""_temp"
-- 
2.43.0


From ea57980b65f4f8324d0f998338d618b241c4fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:05 +0000
Subject: [PATCH 34/37] fix: index set splitting aborted on a statement whose
 domain is a union

---
 lib/iss.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/iss.c b/lib/iss.c
index 475b786..1b9dd2e 100644
--- a/lib/iss.c
+++ b/lib/iss.c
@@ -400,7 +400,7 @@ void pluto_iss(Stmt *stmt, PlutoConstraints **cuts, int num_cuts,
 
   for (i = 0; i < num_cuts; i++) {
     Stmt *nstmt = pluto_stmt_dup(stmt);
-    pluto_constraints_add(nstmt->domain, cuts[i]);
+    pluto_constraints_add_to_each(nstmt->domain, cuts[i]);
     pluto_add_given_stmt(prog, nstmt);
   }
 
-- 
2.43.0


From c93fd22d99b8196fb4bf00629383f4d9430ed308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:05 +0000
Subject: [PATCH 35/37] fix: loops with a non-permutable loop inside were
 selected for unroll-and-jam

---
 lib/polyloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 8042725..b7de3a0 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -576,7 +576,7 @@ bool is_unroll_jam_profitable(Ploop *loop, const PlutoProg *prog) {
 Ploop **pluto_get_unroll_jam_loops(const PlutoProg *prog,
                                    unsigned *num_ujloops) {
   unsigned num_ibands;
-  Band **ibands = pluto_get_innermost_permutable_bands(prog, 1, &num_ibands);
+  Band **ibands = pluto_get_innermost_permutable_bands(prog, 0, &num_ibands);
   unsigned num = 0;
   Ploop **ujloops = NULL;
   unsigned nloops = 0;
-- 
2.43.0


From 6a192554947ab3009c9b03a0c5db6b3819aaa225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:05 +0000
Subject: [PATCH 36/37] fix: tile space loops were not recognised and selected
 for unroll-and-jam

---
 lib/program.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/program.cpp b/lib/program.cpp
index a17dd63..b6aae24 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -220,13 +220,13 @@ static int64_t *pluto_check_supernode(const Stmt *stmt, unsigned pos,
 
 /// Returns true if the input loop is a tile space loop.
 bool is_tile_space_loop(Ploop *loop, const PlutoProg *prog) {
-  int tile_size;
-  int64_t *tiling_hyp =
-      pluto_check_supernode(loop->stmts[0], loop->depth, &tile_size);
-  if (tiling_hyp == NULL) {
-    return false;
+  const Stmt *stmt = loop->stmts[0];
+  /* The iterators added by tiling come first in the domain; a tile space loop
+   * does not depend on any of the original ones. */
+  for (unsigned i = stmt->dim - stmt->dim_orig; i < stmt->dim; i++) {
+    if (stmt->trans->val[loop->depth][i] != 0)
+      return false;
   }
-  free(tiling_hyp);
   return true;
 }
 
-- 
2.43.0


From 96dcb47d57107f658b72116fa095961c3060e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 37/37] fix: constant bounds of a variable were wrong for
 equalities and for coefficients other than 1

---
 lib/constraints.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index ab25b9e..5dbe421 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1961,14 +1961,17 @@ int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *lb = INT_MIN;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *lb = cst->val[i][cst->ncols - 1];
-      retval = 1;
-      break;
-    }
-    if (!cst->is_eq[i] && cst->val[i][0] >= 1) {
+    int64_t coeff = cst->val[i][0];
+    int64_t num = -cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff <= -1) {
+      coeff = -coeff;
+      num = -num;
+    }
+    if (coeff >= 1) {
+      /* var >= ceil(num/coeff) */
+      num = num > 0 ? (num + coeff - 1) / coeff : -(-num / coeff);
+      *lb = PLMAX(*lb, num);
       retval = 1;
-      *lb = PLMAX(*lb, -cst->val[i][cst->ncols - 1]);
     }
   }
   pluto_constraints_free(cst);
@@ -1997,13 +2000,16 @@ int pluto_constraints_get_const_ub(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *ub = LLONG_MAX;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *ub = cst->val[i][cst->ncols - 1];
-      retval = 1;
-      break;
-    }
-    if (!cst->is_eq[i] && cst->val[i][0] <= -1) {
-      *ub = PLMIN(*ub, cst->val[i][cst->ncols - 1]);
+    int64_t coeff = -cst->val[i][0];
+    int64_t num = cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff <= -1) {
+      coeff = -coeff;
+      num = -num;
+    }
+    if (coeff >= 1) {
+      /* var <= floor(num/coeff) */
+      num = num >= 0 ? num / coeff : -((-num + coeff - 1) / coeff);
+      *ub = PLMIN(*ub, num);
       retval = 1;
     }
   }
-- 
2.43.0

