#include "plh.h"
// PolyLib's image of a polyhedron (the library without the driver has none): rational, by isl.
#include <isl/constraint.h>
struct Rows { PlutoConstraints *c; unsigned n; };
static isl_stat image_row(isl_constraint *k, void *u) {
  Rows *r = (Rows *)u;
  PlutoConstraints *one = pluto_constraints_alloc(1, r->n + 1, r->c->context);
  one->nrows = 1;
  one->is_eq[0] = isl_constraint_is_equality(k);
  for (unsigned i = 0; i <= r->n; i++) {
    isl_val *v = i < r->n ? isl_constraint_get_coefficient_val(k, isl_dim_set, i) : isl_constraint_get_constant_val(k);
    one->val[0][i] = isl_val_get_num_si(v);
    isl_val_free(v);
  }
  pluto_constraints_add(r->c, one);
  pluto_constraints_free(one);
  isl_constraint_free(k);
  return isl_stat_ok;
}
extern "C" PlutoConstraints *pluto_constraints_image(const PlutoConstraints *cst, const PlutoMatrix *func) {
  isl_ctx *ctx = isl_ctx_alloc();
  unsigned n = cst->ncols - 1, m = func->nrows - 1;
  isl_space *sp = isl_space_set_alloc(ctx, 0, n + m);
  isl_basic_set *b = isl_basic_set_universe(isl_space_copy(sp));
  isl_local_space *ls = isl_local_space_from_space(sp);
  for (unsigned i = 0; i < cst->nrows + m; i++) {
    bool row = i < cst->nrows;
    const int64_t *v = row ? cst->val[i] : func->val[i - cst->nrows];
    isl_constraint *k = !row || cst->is_eq[i] ? isl_constraint_alloc_equality(isl_local_space_copy(ls))
                                              : isl_constraint_alloc_inequality(isl_local_space_copy(ls));
    for (unsigned j = 0; j < n; j++) k = isl_constraint_set_coefficient_si(k, isl_dim_set, j, v[j]);
    k = isl_constraint_set_constant_si(k, v[n]);
    if (!row) k = isl_constraint_set_coefficient_si(k, isl_dim_set, n + i - cst->nrows, -1);
    b = isl_basic_set_add_constraint(b, k);
  }
  isl_local_space_free(ls);
  b = isl_basic_set_remove_dims(b, isl_dim_set, 0, n);   // rational elimination
  b = isl_basic_set_remove_divs(b);
  Rows r = {pluto_constraints_alloc(10, m + 1, cst->context), m};
  r.c->nrows = 0;
  isl_basic_set_foreach_constraint(b, image_row, &r);
  isl_basic_set_free(b);
  isl_ctx_free(ctx);
  return r.c;
}
