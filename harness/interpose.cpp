// Wrappers of libpluto's exported functions.  They are untyped (all arguments
// and results of these functions are integers or pointers) so that they do not
// depend on the exact prototypes.
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
void hook_pre(const char *fn, long a, long b, long c, long d);
void hook_post(const char *fn, long a, long b, long c, long d, long r);
typedef long (*F)(long, long, long, long, long, long);
static F real(const char *name) {
  void *p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "plh: no %s\n", name); abort(); }
  return (F)p;
}
#define WRAP(name)                                                             \
  extern "C" long name(long a, long b, long c, long d, long e, long f) {       \
    static F r = real(#name);                                                  \
    hook_pre(#name, a, b, c, d);                                               \
    long x = r(a, b, c, d, e, f);                                              \
    hook_post(#name, a, b, c, d, x);                                           \
    return x;                                                                  \
  }
WRAP(pluto_auto_transform)
WRAP(pluto_compute_dep_directions)
WRAP(pluto_compute_dep_satisfaction)
WRAP(pluto_get_outermost_permutable_bands)
WRAP(pluto_get_innermost_permutable_bands)
WRAP(pluto_tile)
WRAP(pluto_tile_scattering_dims)
WRAP(pluto_create_tile_schedule)
WRAP(pluto_intra_tile_optimize)
WRAP(pluto_intra_tile_optimize_band)
WRAP(get_permutability_constraints)
WRAP(pluto_stmt_get_schedule)
WRAP(pluto_stmt_get_remapping)
