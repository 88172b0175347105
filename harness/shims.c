/* Stand-ins for the functions of Pluto's isl fork (and piplib) that are not
 * part of apt's isl.  They have the documented meaning of the fork's. */
#include <isl/aff.h>
#include <isl/constraint.h>
#include <isl/map.h>
#include <isl/set.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

static isl_map *only_dim(isl_map *map, unsigned pos) {
  unsigned n = isl_map_dim(map, isl_dim_out);
  map = isl_map_project_out(map, isl_dim_out, pos + 1, n - pos - 1);
  map = isl_map_project_out(map, isl_dim_out, 0, pos);
  return map;
}

/* Is output dimension pos a function of the inputs? */
isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos) {
  isl_map *m = only_dim(isl_map_copy(map), pos);
  isl_bool r = isl_map_is_single_valued(m);
  isl_map_free(m);
  return r;
}

isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos) {
  isl_map *m = only_dim(isl_map_copy(map), pos);
  isl_pw_multi_aff *pma = isl_pw_multi_aff_from_map(m);
  isl_pw_aff *pa = isl_pw_multi_aff_get_pw_aff(pma, 0);
  isl_pw_multi_aff_free(pma);
  return pa;
}

/* A -> [B -> C]   |--->   A -> B */
isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap) {
  isl_map *m = isl_map_from_basic_map(bmap);
  m = isl_map_range_factor_domain(m);
  isl_basic_map *r = isl_map_simple_hull(m);
  return r;
}

struct pluto_constraints;
int64_t *pluto_constraints_lexmin_isl(const struct pluto_constraints *cst, int negvar);
int64_t *pluto_constraints_lexmin_pip(const struct pluto_constraints *cst, int negvar) {
  return pluto_constraints_lexmin_isl(cst, negvar);
}
