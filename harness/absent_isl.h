/* Declarations only. lib/program.cpp and lib/constraints_isl.c call three
 * functions that exist in the isl fork of the (empty) isl submodule and not
 * in apt's isl. Nothing defines them: they stay undefined symbols of
 * libpluto.so, and code that reaches one dies with "undefined symbol". */
#ifndef VP_ABSENT_ISL_H
#define VP_ABSENT_ISL_H
#include "isl/aff.h"
#include "isl/map.h"
#ifdef __cplusplus
extern "C" {
#endif
isl_bool isl_map_dim_is_single_valued(isl_map *map, unsigned pos);
isl_pw_aff *isl_pw_aff_from_map_dim(isl_map *map, int pos);
isl_basic_map *isl_basic_map_range_factor_domain(isl_basic_map *bmap);
#ifdef __cplusplus
}
#endif
#endif
