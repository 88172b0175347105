// demo OPTS DOMAINS DEPS : runs the library on one program and checks the
// returned schedule with isl: legal, total, single-valued, injective.
#include <isl/ctx.h>
#include <isl/constraint.h>
#include <isl/local_space.h>
#include <isl/map.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <pluto/pluto.h>
static int bad = 0;
#ifdef PAR
#include "pluto.h"
#include "program.h"
#include <dlfcn.h>
// Watches the optimizer: the loops it reports parallel for the final program.
static PlutoProg *cur;
static int done, npl;
static struct { int depth, n, st[64]; } pl[64];
void pluto_compute_dep_satisfaction(PlutoProg *p) {
  static void (*r)(PlutoProg *);
  if (!r) r = dlsym(RTLD_NEXT, "pluto_compute_dep_satisfaction");
  cur = p;
  r(p);
}
PlutoConstraints *pluto_stmt_get_schedule(const Stmt *s) {
  static PlutoConstraints *(*r)(const Stmt *);
  if (!r) r = dlsym(RTLD_NEXT, "pluto_stmt_get_schedule");
  if (!done && cur) {
    unsigned n;
    done = 1;
    Ploop **l = getenv("DOMPAR") ? pluto_get_dom_parallel_loops(cur, &n) : pluto_get_parallel_loops(cur, &n);
    for (unsigned i = 0; i < n; i++, npl++) {
      pl[npl].depth = l[i]->depth;
      pl[npl].n = l[i]->nstmts;
      for (unsigned k = 0; k < l[i]->nstmts; k++) pl[npl].st[k] = l[i]->stmts[k]->id;
    }
  }
  return r(s);
}
static int member(const char *nm, int i) {
  for (int k = 0; k < pl[i].n; k++) if (nm && atoi(nm + 2) == pl[i].st[k]) return 1;
  return 0;
}
static isl_union_map *S;
struct find { const char *nm; isl_map *m; };
static isl_stat pick(isl_map *m, void *u) {
  struct find *f = u;
  if (!strcmp(isl_map_get_tuple_name(m, isl_dim_in), f->nm)) f->m = m; else isl_map_free(m);
  return isl_stat_ok;
}
static isl_stat race(isl_map *m, void *u) {
  const char *a = isl_map_get_tuple_name(m, isl_dim_in), *b = isl_map_get_tuple_name(m, isl_dim_out);
  for (int i = 0; i < npl; i++) {
    if (!member(a, i) || !member(b, i)) continue;
    struct find fa = {a, NULL}, fb = {b, NULL};
    isl_union_map_foreach_map(S, pick, &fa);
    isl_union_map_foreach_map(S, pick, &fb);
    isl_map *t = isl_map_apply_range(isl_map_apply_domain(isl_map_copy(m), fa.m), fb.m);
    for (int k = 0; k < pl[i].depth; k++) t = isl_map_equate(t, isl_dim_in, k, isl_dim_out, k);
    isl_map *lt = isl_map_order_lt(isl_map_copy(t), isl_dim_in, pl[i].depth, isl_dim_out, pl[i].depth);
    isl_map *gt = isl_map_order_gt(t, isl_dim_in, pl[i].depth, isl_dim_out, pl[i].depth);
    if (!isl_map_is_empty(lt) || !isl_map_is_empty(gt)) { bad = 1; fprintf(stderr, "RACE at loop %d\n", pl[i].depth); }
    isl_map_free(lt); isl_map_free(gt);
  }
  isl_map_free(m);
  return isl_stat_ok;
}
#endif
#ifdef DIRS
// Watches the direction vectors: every claim is checked with isl.
#include "constraints.h"
#include "pluto/matrix.h"
#include "pluto.h"
#include "program.h"
#include <dlfcn.h>
static int some(PlutoProg *p, Dep *d, int l, int sign) {   // a pair with sign*(distance) >= 1 ?
  Stmt *a = p->stmts[d->src], *b = p->stmts[d->dest];
  int n = a->dim + b->dim + p->npar;
  isl_ctx *x = isl_ctx_alloc();
  isl_basic_set *s = isl_basic_set_universe(isl_space_set_alloc(x, 0, n));
  isl_local_space *ls = isl_local_space_from_space(isl_basic_set_get_space(s));
  for (int i = 0; i <= (int)d->dpolytope->nrows; i++) {
    int last = i == (int)d->dpolytope->nrows;
    isl_constraint *c = !last && d->dpolytope->is_eq[i] ? isl_constraint_alloc_equality(isl_local_space_copy(ls))
                                                        : isl_constraint_alloc_inequality(isl_local_space_copy(ls));
    for (int j = 0; j <= n; j++) {
      int v;
      if (!last) v = d->dpolytope->val[i][j];
      else if (j < a->dim) v = -sign * a->trans->val[l][j];
      else if (j < a->dim + b->dim) v = sign * b->trans->val[l][j - a->dim];
      else v = sign * (b->trans->val[l][j - a->dim] - a->trans->val[l][j - b->dim]) - (j == n);
      c = j < n ? isl_constraint_set_coefficient_si(c, isl_dim_set, j, v) : isl_constraint_set_constant_si(c, v);
    }
    s = isl_basic_set_add_constraint(s, c);
  }
  int r = !isl_basic_set_is_empty(s);
  isl_basic_set_free(s); isl_local_space_free(ls); isl_ctx_free(x);
  return r;
}
void pluto_compute_dep_directions(PlutoProg *p) {
  static void (*r)(PlutoProg *);
  if (!r) r = dlsym(RTLD_NEXT, "pluto_compute_dep_directions");
  r(p);
  for (int i = 0; i < p->ndeps; i++)
    for (int l = 0; l < p->num_hyperplanes; l++) {
      char c = p->deps[i]->dirvec[l];
      int pos = some(p, p->deps[i], l, 1), neg = some(p, p->deps[i], l, -1);
      if ((c == '0' && (pos || neg)) || (c == '+' && neg) || (c == '-' && pos)) {
        bad = 1; fprintf(stderr, "dep %d claimed %c at %d\n", i, c, l);
      }
    }
}
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define O(f) if (!strcmp(k, #f)) { c->options->f = v; ok = 1; }
static isl_stat dead(isl_map *m, void *u) {
  // source and target dates in one space: source must be lexicographically smaller
  isl_map *gt = isl_map_lex_ge(isl_space_domain(isl_map_get_space(m)));
  isl_map *w = isl_map_intersect(m, gt);
  if (!isl_map_is_empty(w)) { bad = 1; char *s = isl_map_to_str(w); fprintf(stderr, "ILLEGAL: %s\n", s); free(s); }
  isl_map_free(w);
  return isl_stat_ok;
}
static isl_stat per(isl_map *m, void *u) {
  if (!isl_map_is_injective(m)) { bad = 1; fprintf(stderr, "NOT INJECTIVE\n"); }
  if (!isl_map_is_single_valued(m)) { bad = 1; fprintf(stderr, "NOT SINGLE-VALUED\n"); }
  isl_map_free(m);
  return isl_stat_ok;
}
int main(int argc, char **argv) {
  PlutoContext *c = pluto_context_alloc();
  c->options->isldepaccesswise = 0;
  char *o = strdup(argv[1]);
  for (char *t = strtok(o, ", "); t; t = strtok(NULL, ", ")) {
    char k[64]; int v = 1, ok = 0;
    char *e = strchr(t, '=');
    if (e) { *e = 0; v = atoi(e + 1); }
    snprintf(k, sizeof k, "%s", t);
    O(tile) O(parallel) O(diamondtile) O(fulldiamondtile) O(fuse) O(multipar) O(second_level_tile) O(intratileopt)
    O(innerpar) O(per_cc_obj) O(nodepbound) O(flic) O(rar) O(silent) O(debug) O(islsolve) O(glpk) O(coeff_bound) O(prevector) O(unrolljam) O(identity)
    if (!ok) { fprintf(stderr, "option %s?\n", k); return 0; }
  }
  isl_ctx *ctx = isl_ctx_alloc();
  isl_union_set *dom = isl_union_set_read_from_str(ctx, argv[2]);
  isl_union_map *dep = isl_union_map_read_from_str(ctx, argv[3]);
  isl_union_map *s = pluto_transform(isl_union_set_copy(dom), isl_union_map_copy(dep), NULL, NULL, c);
  if (!s) { fprintf(stderr, "NO SCHEDULE\n"); return 3; }
  s = isl_union_map_intersect_domain(s, isl_union_set_copy(dom));
  char *str = isl_union_map_to_str(s);
  printf("%s\n", str);
  isl_union_set *d = isl_union_map_domain(isl_union_map_copy(s));
  if (!isl_union_set_is_equal(d, dom)) { bad = 1; fprintf(stderr, "NOT TOTAL\n"); }
  isl_union_map_foreach_map(s, per, NULL);
  isl_union_map *t = isl_union_map_apply_domain(isl_union_map_copy(dep), isl_union_map_copy(s));
  t = isl_union_map_apply_range(t, isl_union_map_copy(s));
  isl_union_map_foreach_map(t, dead, NULL);
#ifdef PAR
  S = s;
  if (getenv("NPAR") && npl < atoi(getenv("NPAR"))) { bad = 1; fprintf(stderr, "too few parallel loops: %d\n", npl); }
  isl_union_map_foreach_map(dep, race, NULL);
#endif
  return bad;
}
