#pragma once
#include <nlohmann/json.hpp>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
extern "C" {
#include <isl/ctx.h>
#include <isl/map.h>
#include <isl/point.h>
#include <isl/printer.h>
#include <isl/set.h>
#include <isl/space.h>
#include <isl/union_map.h>
#include <isl/union_set.h>
#include <isl/val.h>
#include <isl/options.h>
}
#include "pluto.h"
#include "constraints.h"
#include "ddg.h"
#include "math_support.h"
#include "pluto/matrix.h"
#include "pluto/pluto.h"
#include "program.h"
extern "C" {
#include "transforms.h"
}
#include "post_transform.h"
#include "tile_size_selection_model.h"
using json = nlohmann::json;
typedef std::vector<long> Vec;
// Result record of the running case; flushed by the parent even after a crash.
// plh links the first, plc the second.
__attribute__((weak)) json run_pipe(const json &c);
__attribute__((weak)) json run_comp(const json &c);
json mat_json(const PlutoMatrix *m);
json cst_json(const PlutoConstraints *c);           // list of disjuncts
json cst_single_json(const PlutoConstraints *c);    // rows [eq, coeffs...]
PlutoMatrix *mat_from(const json &j, unsigned ncols, PlutoContext *ctx);
PlutoConstraints *cst_single_from(const json &rows, unsigned ncols, PlutoContext *ctx);
PlutoConstraints *cst_from(const json &disj, unsigned ncols, PlutoContext *ctx);
void set_opts(PlutoOptions *o, const json &j);
long clampl(long long v);
