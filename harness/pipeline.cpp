#include <signal.h>
#include <sys/prctl.h>
// Pipeline replay: builds isl input from a case, calls libpluto's API and
// records an event per pipeline stage.  The stages are observed by interposing
// libpluto's exported functions (the wrappers below call the real ones), so no
// hook in the sources is needed; a stage that is never seen is "no information".
#include "plh.h"
#include <dlfcn.h>
#include <functional>
#include <pthread.h>
#include <signal.h>
#include <sys/wait.h>

static thread_local json *EV = nullptr;      // event list of the current run
static thread_local PlutoProg *CUR = nullptr;
static thread_local bool final_done = false, remap_run = false;
static thread_local int in_auto = 0, nperm = 0;
static thread_local std::vector<std::pair<json, json>> PRE;


static json loops_json(Ploop **l, unsigned n) {
  json r = json::array();
  for (unsigned i = 0; i < n; i++) {
    json s = json::array();
    for (unsigned k = 0; k < l[i]->nstmts; k++) s.push_back(l[i]->stmts[k]->id + 1);
    r.push_back({{"depth", l[i]->depth}, {"stmts", s}});
  }
  return r;
}
static json bands_json(Band **b, unsigned n) {
  json r = json::array();
  for (unsigned i = 0; i < n; i++) {
    json s = json::array();
    for (unsigned k = 0; k < b[i]->loop->nstmts; k++) s.push_back(b[i]->loop->stmts[k]->id + 1);
    r.push_back({{"depth", b[i]->loop->depth}, {"width", b[i]->width}, {"stmts", s}});
  }
  return r;
}
static json stmts_json(PlutoProg *prog, bool dom) {
  json r = json::array();
  for (unsigned i = 0; i < prog->nstmts; i++) {
    Stmt *s = prog->stmts[i];
    json h = json::array();
    for (unsigned k = 0; k < s->trans->nrows; k++) h.push_back((int)s->hyp_types[k]);
    json j = {{"id", s->id}, {"dim", s->dim}, {"dimo", s->dim_orig},
              {"trans", mat_json(s->trans)}, {"hyp", h}, {"scc", s->scc_id}};
    if (s->evicted_hyp) { j["evict"] = mat_json(s->evicted_hyp); j["evpos"] = s->evicted_hyp_pos; }
    if (dom) j["dom"] = cst_json(s->domain);
    r.push_back(j);
  }
  return r;
}
static json hprops_json(PlutoProg *prog) {
  json r = json::array();
  for (int i = 0; i < prog->num_hyperplanes; i++)
    r.push_back({{"prop", (int)prog->hProps[i].dep_prop}, {"type", (int)prog->hProps[i].type},
                 {"band", prog->hProps[i].band_num}, {"unroll", (int)prog->hProps[i].unroll},
                 {"prevec", prog->hProps[i].prevec}});
  return r;
}
static json deps_json(PlutoProg *prog, bool dirs, bool sat, bool poly) {
  json r = json::array();
  for (int i = 0; i < prog->ndeps; i++) {
    Dep *d = prog->deps[i];
    json j = {{"s", d->src + 1}, {"t", d->dest + 1}};
    if (dirs) {
      json v = json::array();
      if (d->dirvec)
        for (int k = 0; k < prog->num_hyperplanes; k++) {
          char c[2] = {(char)d->dirvec[k], 0};
          v.push_back(std::string(c));
        }
      j["dir"] = v;
    }
    if (sat) {
      json v = json::array();
      if (d->satvec)
        for (int k = 0; k < prog->num_hyperplanes; k++) v.push_back(d->satvec[k]);
      j["sat"] = v;
      j["ok"] = d->satisfied ? 1 : 0;
      j["lev"] = d->satisfaction_level;
    }
    if (poly) j["poly"] = cst_json(d->dpolytope);
    r.push_back(j);
  }
  return r;
}
static void ev(const char *name, PlutoProg *prog, std::function<void(json &)> more = nullptr) {
  CUR = prog;
  if (!EV) return;
  json e = {{"e", name}, {"nh", prog->num_hyperplanes}};
  if (more) more(e);
  EV->push_back(e);
}
static void final_snapshot() {
  if (final_done || !CUR) return;
  final_done = true;
  PlutoProg *prog = CUR;
  if (!EV) return;
  json e = {{"e", "final"}, {"nh", prog->num_hyperplanes}, {"nvar", prog->nvar},
            {"npar", prog->npar}, {"diamond", prog->is_diamond_tiled ? 1 : 0}};
  e["stmts"] = stmts_json(prog, true);
  e["hp"] = hprops_json(prog);
  e["deps"] = deps_json(prog, false, true, false);
  EV->push_back(e);
  json *keep = EV;
  EV = nullptr;
  unsigned n;
  json p = {{"e", "loops"}};
  Ploop **pl = pluto_get_parallel_loops(prog, &n);
  p["par"] = loops_json(pl, n);
  pluto_loops_free(pl, n);
  pl = pluto_get_dom_parallel_loops(prog, &n);
  p["dompar"] = loops_json(pl, n);
  pluto_loops_free(pl, n);
  pl = pluto_get_all_loops(prog, &n);
  p["all"] = loops_json(pl, n);
  pluto_loops_free(pl, n);
  typedef Ploop **(*GetInner)(PlutoProg *, int *);
  if (GetInner gi = (GetInner)dlsym(RTLD_DEFAULT, "pluto_get_innermost_loops")) {
    int m = 0;
    pl = gi(prog, &m);
    p["inner"] = loops_json(pl, m);
  }
  typedef Ploop **(*GetOuter)(const PlutoProg *, int *);
  if (GetOuter go = (GetOuter)dlsym(RTLD_DEFAULT, "pluto_get_outermost_loops")) {
    int m = 0;
    pl = go(prog, &m);
    p["outer"] = loops_json(pl, m);
  }
  typedef Ploop **(*GetUj)(const PlutoProg *, unsigned *);
  if (GetUj gu = (GetUj)dlsym(RTLD_DEFAULT, "pluto_get_unroll_jam_loops")) {
    unsigned m = 0;
    pl = gu(prog, &m);
    p["uj"] = loops_json(pl, m);
  }
  typedef Band **(*GetPb)(PlutoProg *, unsigned *, int **);
  if (GetPb gb = (GetPb)dlsym(RTLD_DEFAULT, "pluto_get_dom_parallel_bands")) {
    unsigned m = 0;
    int *lv = nullptr;
    Band **b = gb(prog, &m, &lv);
    p["pband"] = bands_json(b, m);
  }
  EV = keep;
  EV->push_back(p);
}

// Index set splitting as the source-to-source driver does it: the statements have
// their original schedule, the split comes just before the transformation is searched.
static thread_local const json *ISS = nullptr;
static void split(PlutoProg *prog) {
  const json &c = *ISS;
  int maxd = 0, npar = prog->npar;
  for (unsigned i = 0; i < prog->nstmts; i++) maxd = std::max(maxd, (int)prog->stmts[i]->dim);
  for (unsigned i = 0; i < prog->nstmts; i++) {
    Stmt *s = prog->stmts[i];
    free(s->text);
    s->text = strdup(("T" + std::to_string(i + 1)).c_str());
    pluto_matrix_free(s->trans);
    s->trans = pluto_matrix_alloc(2 * maxd + 1, s->dim + npar + 1, prog->context);
    pluto_matrix_set(s->trans, 0);
    s->hyp_types = (PlutoHypType *)realloc(s->hyp_types, (2 * maxd + 1) * sizeof(PlutoHypType));
    for (int k = 0; k < 2 * maxd + 1; k++) {
      s->hyp_types[k] = k % 2 ? H_LOOP : H_SCALAR;
      if (k % 2 == 0) {
        if (k / 2 <= (int)s->dim) s->trans->val[k][s->dim + npar] = c["stmts"][i]["beta"][k / 2].get<int>();
      } else if (k / 2 < (int)s->dim)
        s->trans->val[k][k / 2] = 1;
    }
  }
  for (int k = 0; k < 2 * maxd + 1; k++) pluto_prog_add_hyperplane(prog, k, k % 2 ? H_LOOP : H_SCALAR);
  unsigned before = prog->nstmts;
  pluto_iss_dep(prog);
  ev("iss", prog, [&](json &e) {
    e["split"] = prog->nstmts != before ? 1 : 0;
    e["stmts"] = stmts_json(prog, true);
    e["deps"] = deps_json(prog, false, false, true);
    for (unsigned i = 0; i < prog->nstmts; i++)
      e["stmts"][i]["orig"] = prog->stmts[i]->text ? atoi(prog->stmts[i]->text + 1) : 0;
  });
}
// Called by the untyped wrappers in interpose.cpp.
static void ev_input(PlutoProg *prog) {
  ev("input", prog, [&](json &e) {
    e["stmts"] = stmts_json(prog, true);
    e["deps"] = deps_json(prog, false, false, true);
  });
}
void hook_pre(const char *fn, long a, long b, long c, long d) {
  std::string f = fn;
  // the transformation is final when the result is built from it; the stages use
  // remappings, too, so that the last of them counts when one is asked for
  if (f == "pluto_stmt_get_schedule") { final_snapshot(); return; }
  if (f == "pluto_stmt_get_remapping") {
    if (!remap_run) return;
    if (EV)
      for (size_t i = EV->size(); i-- > 0;)
        if ((*EV)[i]["e"] == "final" || (*EV)[i]["e"] == "loops") EV->erase(i);
    final_done = false;
    final_snapshot();
    return;
  }
  PlutoProg *prog = (PlutoProg *)(f == "pluto_intra_tile_optimize_band" ? c : a);
  CUR = prog;
  if (!EV) return;
  if (f == "pluto_auto_transform") { if (!in_auto++) { if (ISS) split(prog); ev_input(prog); } }
  if (in_auto) return;
  if (f == "pluto_tile_scattering_dims" || f == "pluto_create_tile_schedule")
    PRE.push_back({bands_json((Band **)b, (unsigned)c), stmts_json(prog, true)});
  else if (f == "pluto_intra_tile_optimize" || f == "pluto_tile" || f == "pluto_intra_tile_optimize_band")
    PRE.push_back({json(), stmts_json(prog, true)});
}
static bool seen_input() {
  for (auto &e : *EV) if (e["e"] == "input") return true;
  return false;
}
void hook_post(const char *fn, long a, long b, long c, long d, long r) {
  std::string f = fn;
  if (!EV) return;
  PlutoProg *prog = (PlutoProg *)(f == "pluto_intra_tile_optimize_band" ? c : a);
  if (f == "pluto_auto_transform" && in_auto) in_auto--;
  if (f == "get_permutability_constraints") {
    // the space of hyperplanes the search is about to look at
    PlutoConstraints *g = (PlutoConstraints *)r;
    if (!in_auto || !g || g->nrows > 80 || nperm > 3) return;
    nperm++;
    ev("perm", prog, [&](json &e) {
      json u = json::array();
      for (int i = 0; i < prog->ndeps; i++) if (!prog->deps[i]->satisfied) u.push_back(i + 1);
      e["unsat"] = u;
      e["nvar"] = prog->nvar;
      e["cst"] = cst_single_json(g);
    });
    return;
  }
  if (in_auto) return;
  if (f == "pluto_auto_transform")
    ev("auto", prog, [&](json &e) {
      e["ret"] = (int)r;
      if (!(int)r) { e["stmts"] = stmts_json(prog, false); e["hp"] = hprops_json(prog); }
    });
  else if (f == "pluto_compute_dep_directions") {
    if (!seen_input()) ev_input(prog);
    ev("dirs", prog, [&](json &e) {
      e["stmts"] = stmts_json(prog, true);
      e["deps"] = deps_json(prog, true, false, false);
    });
  } else if (f == "pluto_compute_dep_satisfaction")
    ev("sat", prog, [&](json &e) {
      e["stmts"] = stmts_json(prog, true);
      e["deps"] = deps_json(prog, false, true, false);
    });
  else if (f == "pluto_get_outermost_permutable_bands")
    ev("bands", prog, [&](json &e) {
      e["which"] = "outer";
      e["bands"] = bands_json((Band **)r, *(unsigned *)b);
      e["stmts"] = stmts_json(prog, true);
    });
  else if (f == "pluto_get_innermost_permutable_bands")
    ev("bands", prog, [&](json &e) {
      e["which"] = "inner";
      e["bands"] = bands_json((Band **)r, *(unsigned *)c);
      e["stmts"] = stmts_json(prog, true);
    });
  else if (f == "pluto_tile_scattering_dims" || f == "pluto_create_tile_schedule" ||
           f == "pluto_intra_tile_optimize" || f == "pluto_intra_tile_optimize_band" || f == "pluto_tile") {
    if (PRE.empty()) return;
    auto p = PRE.back();
    PRE.pop_back();
    const char *n = f == "pluto_tile_scattering_dims" ? "tsd"
                    : f == "pluto_create_tile_schedule" ? "wave"
                    : f == "pluto_tile" ? "tile" : "intra";
    ev(n, prog, [&](json &e) {
      e["before"] = p.second;
      if (!p.first.is_null()) e["bands"] = p.first;
      if (f == "pluto_tile_scattering_dims") e["l2"] = (int)(d & 0xff) ? 1 : 0;
      else e["ret"] = (int)(r & 0xff) ? 1 : 0;
      e["after"] = stmts_json(prog, true);
      e["hp"] = hprops_json(prog);
    });
  }
}

// ---------------------------------------------------------------- isl input
static std::string row_str(const json &row, const std::vector<std::string> &names) {
  std::string s;
  for (size_t k = 0; k < names.size(); k++) {
    long v = row[k + 1].get<long>();
    if (!v) continue;
    s += (s.empty() ? "" : " + ") + ("(" + std::to_string(v) + "*" + names[k] + ")");
  }
  long cst = row[names.size() + 1].get<long>();
  s += (s.empty() ? "" : " + ") + ("(" + std::to_string(cst) + ")");
  return s + (row[0].get<int>() ? " = 0" : " >= 0");
}
static std::string conj(const json &rows, const std::vector<std::string> &names) {
  std::string s;
  for (auto &r : rows) s += (s.empty() ? "" : " and ") + row_str(r, names);
  return s.empty() ? "true" : s;
}
static std::string disj(const json &d, const std::vector<std::string> &names) {
  std::string s;
  for (auto &r : d) s += (s.empty() ? "" : " or ") + ("(" + conj(r, names) + ")");
  return s.empty() ? "false" : s;
}
static std::string parnames(int npar) {
  std::string s = "[";
  for (int i = 0; i < npar; i++) s += (i ? "," : "") + ("p" + std::to_string(i));
  return s + "] -> ";
}
static std::string tuple(int st, const std::string &pre, int dim) {
  std::string s = "S_" + std::to_string(st - 1) + "[";
  for (int i = 0; i < dim; i++) s += (i ? "," : "") + pre + std::to_string(i);
  return s + "]";
}
static void names_for(std::vector<std::string> &v, const std::string &pre, int n) {
  for (int i = 0; i < n; i++) v.push_back(pre + std::to_string(i));
}
std::string domain_str(const json &c) {
  int npar = c["npar"];
  std::string s = parnames(npar) + "{ ";
  int n = 0;
  for (auto &st : c["stmts"]) {
    std::vector<std::string> nm;
    names_for(nm, "i", st["dim"]);
    names_for(nm, "p", npar);
    n++;
    s += (n > 1 ? "; " : "") + tuple(n, "i", st["dim"]) + " : " + disj(st["dom"], nm);
  }
  return s + " }";
}
// A dependence: extra rows over (src iters, dst iters, params, 1); both ends
// are in their statements' domains (every combination of disjuncts).
std::string deps_str(const json &c) {
  int npar = c["npar"];
  std::string s = parnames(npar) + "{ ";
  bool first = true;
  for (auto &d : c["deps"]) {
    auto &ss = c["stmts"][d["s"].get<int>() - 1], &st = c["stmts"][d["t"].get<int>() - 1];
    std::vector<std::string> a, b, all;
    names_for(a, "i", ss["dim"]); names_for(all, "i", ss["dim"]);
    names_for(a, "p", npar);
    names_for(b, "o", st["dim"]); names_for(all, "o", st["dim"]);
    names_for(b, "p", npar); names_for(all, "p", npar);
    s += (first ? "" : "; ") + tuple(d["s"], "i", ss["dim"]) + " -> " + tuple(d["t"], "o", st["dim"]) +
         " : (" + disj(ss["dom"], a) + ") and (" + disj(st["dom"], b) + ") and (" +
         conj(d["rows"], all) + ")";
    first = false;
  }
  return s + " }";
}
// Access relations: [{s, arr, rows: [[coeffs over iters, params, const] ...]}]
std::string acc_str(const json &c, const char *which) {
  int npar = c["npar"];
  std::string s = parnames(npar) + "{ ";
  bool first = true;
  int n = 0;
  for (auto &st : c["stmts"]) {
    n++;
    for (auto &a : st[which]) {
      std::vector<std::string> nm;
      names_for(nm, "i", st["dim"]);
      names_for(nm, "p", npar);
      s += (first ? "" : "; ") + tuple(n, "i", st["dim"]) + " -> A" + std::to_string(a["arr"].get<int>()) + "[";
      first = false;
      int k = 0;
      for (auto &r : a["f"]) {
        json row = json::array();
        row.push_back(0);
        for (auto &x : r) row.push_back(x);
        std::string e = row_str(row, nm);
        e = e.substr(0, e.size() - 5);
        s += (k++ ? ", " : "") + e;
      }
      s += "]";
    }
  }
  return s + " }";
}
// Original schedule (2d+1 form, padded)
std::string orig_sched_str(const json &c) {
  int npar = c["npar"];
  std::string s = parnames(npar) + "{ ";
  int n = 0;
  size_t maxd = 0;
  for (auto &st : c["stmts"]) maxd = std::max(maxd, (size_t)st["dim"].get<int>());
  for (auto &st : c["stmts"]) {
    std::vector<std::string> nm;
    int dim = st["dim"];
    names_for(nm, "i", dim);
    names_for(nm, "p", npar);
    n++;
    s += (n > 1 ? "; " : "") + tuple(n, "i", dim) + " -> [";
    for (size_t k = 0; k <= maxd; k++) {
      s += (k ? ", " : "") + std::to_string(k <= (size_t)dim ? st["beta"][k].get<int>() : 0);
      if (k < maxd) s += ", " + (k < (size_t)dim ? "i" + std::to_string(k) : std::string("0"));
    }
    s += "] : " + disj(st["dom"], nm);
  }
  return s + " }";
}

// ------------------------------------------------------- schedule read-back
struct PtCtx { json *arr; unsigned nin, nout; size_t limit; };
static isl_stat on_point(isl_point *pt, void *u) {
  PtCtx *p = (PtCtx *)u;
  json a = json::array(), b = json::array();
  for (unsigned i = 0; i < p->nin + p->nout; i++) {
    isl_val *v = isl_point_get_coordinate_val(pt, isl_dim_set, i);
    long x = isl_val_get_num_si(v);
    isl_val_free(v);
    (i < p->nin ? a : b).push_back(clampl(x));
  }
  isl_point_free(pt);
  if (p->arr->size() >= p->limit) return isl_stat_error;
  p->arr->push_back(json::array({a, b}));
  return isl_stat_ok;
}
struct MapCtx { json *stmts; const json *c; const json *pv; isl_ctx *ctx; isl_union_set *dom; };
static isl_stat on_map(isl_map *map, void *u) {
  MapCtx *m = (MapCtx *)u;
  const char *nm = isl_map_get_tuple_name(map, isl_dim_in);
  int id = nm ? atoi(nm + 2) : -1;
  std::string name = nm ? nm : "";
  json rec = {{"name", name}, {"nin", (int)isl_map_dim(map, isl_dim_in)},
              {"nout", (int)isl_map_dim(map, isl_dim_out)}, {"s", id + 1}};
  isl_set *d = isl_union_set_extract_set(m->dom, isl_space_domain(isl_map_get_space(map)));
  map = isl_map_intersect_domain(map, d);
  int np = isl_map_dim(map, isl_dim_param);
  // parameters by name p<k>
  for (int i = np - 1; i >= 0; i--) {
    const char *pn = isl_map_get_dim_name(map, isl_dim_param, i);
    int k = pn ? atoi(pn + 1) : -1;
    if (k < 0 || (size_t)k >= m->pv->size()) { rec["bad"] = "param"; continue; }
    map = isl_map_fix_si(map, isl_dim_param, i, (*m->pv)[k].get<int>());
  }
  map = isl_map_project_out(map, isl_dim_param, 0, np);
  unsigned nin = isl_map_dim(map, isl_dim_in), nout = isl_map_dim(map, isl_dim_out);
  isl_set *w = isl_set_flatten(isl_map_wrap(map));
  json pts = json::array();
  if (!isl_set_is_bounded(w)) rec["unbounded"] = 1;
  else {
    PtCtx pc = {&pts, nin, nout, 20000};
    isl_set_foreach_point(w, on_point, &pc);
  }
  isl_set_free(w);
  rec["pts"] = pts;
  m->stmts->push_back(rec);
  return isl_stat_ok;
}
static json sched_json(isl_ctx *ctx, isl_union_map *sched, const json &c) {
  json r = json::array();
  for (auto &pv : c["pvals"]) {
    json st = json::array();
    MapCtx mc = {&st, &c, &pv, ctx, isl_union_set_read_from_str(ctx, domain_str(c).c_str())};
    isl_union_map_foreach_map(sched, on_map, &mc);
    isl_union_set_free(mc.dom);
    r.push_back({{"pv", pv}, {"stmts", st}});
  }
  return r;
}
static json remap_json(const Remapping &r) {
  json j = json::array();
  for (unsigned i = 0; i < r.nstmts; i++) {
    json d = json::array();
    for (unsigned k = 0; k < r.stmt_inv_matrices[i]->nrows; k++) d.push_back(clampl(r.stmt_divs[i][k]));
    j.push_back({{"inv", mat_json(r.stmt_inv_matrices[i])}, {"div", d}});
  }
  return j;
}

// ------------------------------------------------------------------ the run
static json one_run(const json &c, PlutoContext *pc, bool events, bool files = true) {
  json out = {{"ret", "none"}};
  json evs = json::array();
  EV = events ? &evs : nullptr;
  CUR = nullptr;
  final_done = false;
  remap_run = c.value("api", "transform") == "remap";
  in_auto = nperm = 0;
  PRE.clear();
  if (!files) {
  } else if (c.contains("tsn") && !c["tsn"].empty()) {
    FILE *f = fopen("tile.sizes", "w");
    for (auto &x : c["tsn"]) fprintf(f, "%d\n", x.get<int>());
    fclose(f);
  } else
    remove("tile.sizes");
  if (files) {
    // a fusion structure or a partial transformation given by the user
    remove(".fst");
    remove(".precut");
    if (c.contains("fst")) {
      FILE *f = fopen(".fst", "w");
      fprintf(f, "%d\n", (int)c["fst"].size());
      for (auto &g : c["fst"]) {
        fprintf(f, "%d\n", (int)g["ss"].size());
        for (auto &x : g["ss"]) fprintf(f, "%d ", x.get<int>());
        fprintf(f, "\n%d\n", g["tile"].get<int>());
      }
      fclose(f);
    }
    if (c.contains("precut")) {
      FILE *f = fopen(".precut", "w");
      fprintf(f, "%d\n1\n", (int)c["precut"].size());
      for (auto &rows : c["precut"]) {
        fprintf(f, "%d %d\n", (int)rows.size(), (int)rows[0].size() + 1);
        for (auto &r : rows) {
          fprintf(f, "0");
          for (auto &x : r) fprintf(f, " %d", x.get<int>());
          fprintf(f, "\n");
        }
        fprintf(f, "0\n1\n");
      }
      fclose(f);
    }
  }
  {
    isl_ctx *ctx = isl_ctx_alloc();
    isl_union_set *d = isl_union_set_read_from_str(ctx, domain_str(c).c_str());
    int n = isl_union_set_n_set(d);
    isl_union_set_free(d);
    isl_ctx_free(ctx);
    if (n != (int)c["stmts"].size()) { out["ret"] = "empty"; out["ev"] = evs; return out; }
  }
  std::string api = c.value("api", "transform");
  ISS = api == "iss" ? &c : nullptr;
  if (api == "transform" || api == "sched" || api == "iss") {
    isl_ctx *ctx = isl_ctx_alloc();
    isl_options_set_on_error(ctx, ISL_ON_ERROR_ABORT);
    isl_union_map *s;
    if (api != "sched") {
      isl_union_set *dom = isl_union_set_read_from_str(ctx, domain_str(c).c_str());
      isl_union_map *dep = isl_union_map_read_from_str(ctx, deps_str(c).c_str());
      isl_union_map *rd = NULL, *wr = NULL;
      if (c.value("acc", 0)) {
        rd = isl_union_map_read_from_str(ctx, acc_str(c, "reads").c_str());
        wr = isl_union_map_read_from_str(ctx, acc_str(c, "writes").c_str());
      }
      s = pluto_transform(dom, dep, rd, wr, pc);
    } else {
      isl_union_map *os = isl_union_map_read_from_str(ctx, orig_sched_str(c).c_str());
      isl_union_map *rd = isl_union_map_read_from_str(ctx, acc_str(c, "reads").c_str());
      isl_union_map *wr = isl_union_map_read_from_str(ctx, acc_str(c, "writes").c_str());
      s = pluto_schedule(os, rd, wr, pc);
    }
    EV = nullptr;
    if (!s) out["ret"] = "null";
    else if (api == "iss") out["ret"] = "iss";   // judged by the events
    else {
      out["ret"] = "sched";
      out["sched"] = sched_json(ctx, s, c);
      char *str = isl_union_map_to_str(s);
      out["str"] = str;
      free(str);
    }
    isl_union_map_free(s);
    if (c.value("freectx", 1)) isl_ctx_free(ctx);
  } else if (api == "remap") {
    Remapping r;
    memset(&r, 0, sizeof r);
    pluto_get_remapping_str(domain_str(c).c_str(), deps_str(c).c_str(), pc, &r);
    EV = nullptr;
    if (r.stmt_inv_matrices) {
      out["ret"] = "remap";
      out["remap"] = remap_json(r);
      pluto_remapping_free(r);
    } else
      out["ret"] = "null";
  } else if (api == "str") {
    char *sb = nullptr, *pl = nullptr;
    Remapping *rm = nullptr;
    pluto_schedule_str(domain_str(c).c_str(), deps_str(c).c_str(), &sb, &pl, &rm, pc);
    EV = nullptr;
    isl_ctx *ctx = isl_ctx_alloc();
    isl_union_map *s = sb && sb[0] ? isl_union_map_read_from_str(ctx, sb) : nullptr;
    if (!s) out["ret"] = "null";
    else {
      out["ret"] = "sched";
      out["sched"] = sched_json(ctx, s, c);
      out["str"] = std::string(sb);
      isl_union_map_free(s);
    }
    out["ploops"] = pl ? std::string(pl) : std::string("-");
    json pn = json::array();
    if (pl) {
      std::string t = pl;
      size_t p = 0;
      while (p <= t.size()) {
        size_t q = t.find(',', p);
        if (q == std::string::npos) q = t.size();
        pn.push_back(atol(t.substr(p, q - p).c_str()));
        p = q + 1;
      }
    }
    out["pnums"] = pn;
    if (rm && s) {
      out["remap"] = remap_json(*rm);
      pluto_remapping_free(*rm);
      free(rm);
    }
    if (sb) pluto_schedules_strbuf_free(sb);
  }
  EV = nullptr;
  out["ev"] = evs;
  return out;
}

// The same call made alone, in a process and a context of its own.
static json pristine(const json &c) {
  int fd[2];
  if (pipe(fd)) return json::object();
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);     // the time limit is the parent's
    close(fd[0]);
    PlutoContext *pc = pluto_context_alloc();
    set_opts(pc->options, c["opts"]);
    json o = one_run(c, pc, false);
    o.erase("ev");
    std::string s = o.dump();
    for (size_t k = 0; k < s.size();) {
      ssize_t n = write(fd[1], s.data() + k, s.size() - k);
      if (n <= 0) _exit(3);
      k += n;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char buf[65536];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, n);
  close(fd[0]);
  int st;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { fprintf(stderr, "reference run ended by signal %d\n", WTERMSIG(st)); raise(WTERMSIG(st)); }
  return json::parse(s);
}
struct Th { const json *c; json out; pthread_t t; };
static void *th_main(void *u) {
  Th *t = (Th *)u;
  PlutoContext *pc = pluto_context_alloc();
  set_opts(pc->options, (*t->c)["opts"]);
  t->out = one_run(*t->c, pc, false, false);   // the files are those of the main call
  pluto_context_free(pc);
  return NULL;
}
json run_pipe(const json &c) {
  json ref;
  bool cmp = c.value("cmp", 0), same = c.value("thr", 0);
  if (cmp) {
    json r = c;
    r["api"] = c.value("refapi", "transform");
    ref = pristine(r);
  }
  PlutoContext *pc = pluto_context_alloc();
  set_opts(pc->options, c["opts"]);
  // A history: this context or another one serves other programs first.
  std::vector<PlutoContext *> others;
  for (auto &h : c.value("before", json::array())) {
    PlutoContext *use = pc;
    if (h.value("own", 0)) {
      use = pluto_context_alloc();
      set_opts(use->options, h["opts"]);
      others.push_back(use);
    }
    json o = one_run(h, use, false);
    (void)o;
    if (use != pc && h.value("own", 0) == 2) { pluto_context_free(use); others.pop_back(); }
  }
  json out;
  if (same) {
    // other contexts work at the same time in other threads (no events then)
    if (!c["tsn"].empty()) {
      FILE *f = fopen("tile.sizes", "w");
      for (auto &x : c["tsn"]) fprintf(f, "%d\n", x.get<int>());
      fclose(f);
    }
    std::vector<Th> th(c["with"].size());
    for (size_t i = 0; i < th.size(); i++) {
      th[i].c = &c["with"][i];
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 64 << 20);
      pthread_create(&th[i].t, &at, th_main, &th[i]);
    }
    out = one_run(c, pc, false, false);
    for (auto &t : th) pthread_join(t.t, NULL);
  } else
    out = one_run(c, pc, c.value("events", 1));
  if (cmp) out["ref"] = ref;
  for (auto x : others) pluto_context_free(x);
  if (c.value("ctxfree", 1)) pluto_context_free(pc);
  return out;
}
