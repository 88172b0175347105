// Component replay: histories of operations on constraint systems, matrices
// and graphs.  A case gives initial registers and a sequence of operations;
// after every operation all registers (and the operation's answer) are
// recorded.  Operations whose precondition does not hold are skipped.
#include "plh.h"
#include <climits>
#include <set>

extern "C" {
PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat);
void pluto_matrix_resize(PlutoMatrix *mat, int nrows, int ncols);
void pluto_constraints_remove_const_ub(PlutoConstraints *cst, int pos);
}

static bool too_big(const PlutoConstraints *c) {
  for (; c; c = c->next)
    for (unsigned i = 0; i < c->nrows; i++)
      for (unsigned j = 0; j < c->ncols; j++)
        if (c->val[i][j] > 2000 || c->val[i][j] < -2000) return true;
  return false;
}
static bool too_big(const PlutoMatrix *c) {
  for (unsigned i = 0; i < c->nrows; i++)
    for (unsigned j = 0; j < c->ncols; j++)
      if (c->val[i][j] > 2000 || c->val[i][j] < -2000) return true;
  return false;
}
static json vec_json(const int64_t *v, unsigned n) {
  json r = json::array();
  for (unsigned i = 0; i < n; i++) r.push_back(clampl(v[i]));
  return r;
}
static PlutoConstraints *boxed(const PlutoConstraints *a, long lo, long hi) {
  PlutoConstraints *b = pluto_constraints_dup(a);
  for (unsigned i = 0; i + 1 < a->ncols; i++) {
    for (PlutoConstraints *x = b; x; x = x->next) {
      PlutoConstraints *nx = x->next;
      x->next = NULL;
      pluto_constraints_add_inequality(x);
      x->val[x->nrows - 1][i] = 1;
      x->val[x->nrows - 1][x->ncols - 1] = -lo;
      pluto_constraints_add_inequality(x);
      x->val[x->nrows - 1][i] = -1;
      x->val[x->nrows - 1][x->ncols - 1] = hi;
      x->next = nx;
    }
  }
  return b;
}

static json run_cst(const json &c) {
  PlutoContext *ctx = pluto_context_alloc();
  ctx->options->islsolve = 1;
  long lo = c["lo"], hi = c["hi"];
  std::vector<PlutoConstraints *> R;
  for (auto &r : c["regs"]) {
    PlutoConstraints *x = cst_from(r["d"], r["n"].get<int>() + 1, ctx);
    if (r.value("names", 0)) {
      std::vector<std::string> nm;
      std::vector<char *> p;
      for (int i = 0; i < r["n"].get<int>(); i++) nm.push_back("v" + std::to_string(i));
      for (auto &s : nm) p.push_back((char *)s.c_str());
      for (PlutoConstraints *y = x; y; y = y->next) pluto_constraints_set_names(y, p.data());
    }
    R.push_back(x);
  }
  json steps = json::array();
  auto snap = [&](const json &ret, int skip) {
    json g = json::array();
    for (auto *x : R) g.push_back({{"n", (int)x->ncols - 1}, {"d", cst_json(x)}});
    steps.push_back({{"regs", g}, {"ret", ret}, {"skip", skip}});
  };
  snap(json::array(), 0);
  for (auto &o : c["ops"]) {
    std::string op = o["op"];
    int a = o["a"].get<int>() - 1, b = o["b"].get<int>() - 1, i = o["i"], v = o["v"];
    PlutoConstraints *&A = R[a];
    PlutoConstraints *B = R[b];
    int n = A->ncols - 1;
    int skip = 0;
    json ret = json::array();
    bool single = !A->next, same = A->ncols == B->ncols;
    int pos = n > 0 ? i % n : 0;
    int row = A->nrows > 0 ? i % A->nrows : -1;
    auto copy_in = [&](PlutoConstraints *x) { pluto_constraints_free(A); A = x; };
    if (op == "add") { if (single && !B->next && same && a != b) pluto_constraints_add(A, B); else skip = 1; }
    else if (op == "each") { if (!B->next && same && a != b) pluto_constraints_add_to_each(A, B); else skip = 1; }
    else if (op == "inter") { if (same) pluto_constraints_intersect_isl(A, B); else skip = 1; }
    else if (op == "union") {
      if (same && pluto_constraints_num_in_list(A) + pluto_constraints_num_in_list(B) <= 4) {
        PlutoConstraints *d = pluto_constraints_dup(B);
        pluto_constraints_unionize_simple(A, d);
        pluto_constraints_free(d);
      } else skip = 1;
    }
    else if (op == "copy") { if (a != b) pluto_constraints_copy(A, B); else skip = 1; }
    else if (op == "dup") { if (a != b) copy_in(pluto_constraints_dup(B)); else skip = 1; }
    else if (op == "lb") { if (n) pluto_constraints_add_lb(A, pos, v); else skip = 1; }
    else if (op == "ub") { if (n) pluto_constraints_add_ub(A, pos, v); else skip = 1; }
    else if (op == "setv") { if (n) pluto_constraints_set_var(A, pos, v); else skip = 1; }
    else if (op == "cst") {
      pluto_constraints_add_constraint(A, i % 2);
      for (PlutoConstraints *x = A; x; x = x->next)
        for (int k = 0; k <= n; k++) x->val[x->nrows - 1][k] = o["row"][k == n ? o["row"].size() - 1 : k].get<long>();
    }
    else if (op == "simplify") pluto_constraints_simplify(A);
    else if (op == "adddim") { if (n < 3) { pos = i % (n + 1); pluto_constraints_add_dim(A, pos, "d"); } else skip = 1; }
    else if (op == "addlead") { if (n < 3) { pos = 0; pluto_constraints_add_leading_dims(A, 1); } else skip = 1; }
    else if (op == "remdim") { if (n > 1) pluto_constraints_remove_dim(A, pos); else skip = 1; }
    else if (op == "swap") { if (n) pluto_constraints_interchange_cols(A, pos, v = (v + 10) % n); else skip = 1; }
    else if (op == "fm") { if (n > 1) fourier_motzkin_eliminate(A, pos); else skip = 1; }
    else if (op == "fmsmart") { if (n > 1 && single) fourier_motzkin_eliminate_smart(A, pos); else skip = 1; }
    else if (op == "gauss") {
      bool ok = n > 1 && single, has = false;
      for (unsigned r = 0; ok && r < A->nrows; r++) has |= A->is_eq[r] && A->val[r][pos] != 0;
      if (ok && has) pluto_constraints_gaussian_eliminate(A, pos); else skip = 1;
    }
    else if (op == "proj") { if (n > 1 && single) pluto_constraints_project_out_isl_single(&A, pos, 1); else skip = 1; }
    else if (op == "isl") {
      isl_ctx *ic = isl_ctx_alloc();
      isl_set *s = isl_set_from_pluto_constraints(A, ic);
      copy_in(isl_set_to_pluto_constraints(s, ctx));
      isl_set_free(s);
      isl_ctx_free(ic);
    }
    else if (op == "islmap") {
      if (single && n > 1) {
        isl_ctx *ic = isl_ctx_alloc();
        int nin = 1 + i % n, nout = n - nin;
        isl_basic_map *m = isl_basic_map_from_pluto_constraints(ic, A, nin, nout, 0);
        // that matrix order is (out, in); converting back gives (in, out)
        m = isl_basic_map_reverse(m);
        PlutoConstraints *x = isl_basic_map_to_pluto_constraints(m, ctx);
        isl_basic_map_free(m);
        copy_in(x);
        isl_ctx_free(ic);
      } else skip = 1;
    }
    else if (op == "pure") { if (single) copy_in(pluto_constraints_to_pure_inequalities_single(A)); else skip = 1; }
    else if (op == "shift") {
      if (n > 1) {
        PlutoMatrix *f = pluto_matrix_alloc(1, n + 1, ctx);
        for (int k = 0; k <= n; k++) f->val[0][k] = k == pos ? 0 : o["row"][k == n ? o["row"].size() - 1 : k].get<long>();
        ret = mat_json(f)[0];
        if (single) pluto_constraints_shift_dim(A, pos, f); else skip = 1;
        pluto_matrix_free(f);
      } else skip = 1;
    }
    else if (op == "rmrow") { if (row >= 0) { pos = row; pluto_constraints_remove_row(A, row); } else skip = 1; }
    else if (op == "negrow") { if (row >= 0 && single) { pos = row; pluto_constraints_negate_row(A, row); } else skip = 1; }
    else if (op == "negcst") { if (row >= 0 && single && !A->is_eq[row]) { pos = row; pluto_constraints_negate_constraint(A, row); } else skip = 1; }
    else if (op == "selrow") { if (B->nrows > 0) { pos = i % B->nrows; copy_in(pluto_constraints_select_row(B, pos)); } else skip = 1; }
    else if (op == "neghalf" || op == "poshalf") {
      if (single && A->nrows == 1 && A->is_eq[0])
        copy_in(op == "neghalf" ? pluto_hyperplane_get_negative_half_space(A) : pluto_hyperplane_get_non_negative_half_space(A));
      else skip = 1;
    }
    else if (op == "eqs") {
      if (a != b) {
        PlutoMatrix *m = pluto_constraints_extract_equalities(B);
        copy_in(pluto_constraints_from_equalities(m));
        pluto_matrix_free(m);
      } else skip = 1;
    }
    else if (op == "zero") { if (row >= 0 && single) { pos = row; pluto_constraints_zero_row(A, row); } else skip = 1; }
    else if (op == "univ") copy_in(pluto_constraints_universe(n + 1, ctx));
    else if (op == "void") copy_in(pluto_constraints_empty(n + 1, ctx));
    else if (op == "mixed" || op == "ineqs") {
      if (a != b && !B->next) {
        PlutoMatrix *m = pluto_matrix_alloc(B->nrows, B->ncols, ctx);
        std::vector<int> eq;
        for (unsigned r = 0; r < B->nrows; r++) {
          eq.push_back(B->is_eq[r]);
          for (unsigned k = 0; k < B->ncols; k++) m->val[r][k] = B->val[r][k];
        }
        copy_in(op == "mixed" ? pluto_constraints_from_mixed_matrix(m, eq.data()) : pluto_constraints_from_inequalities(m));
        pluto_matrix_free(m);
      } else skip = 1;
    }
    else if (op == "projout") { if (n > 1) pluto_constraints_project_out(A, pos, 1); else skip = 1; }
    else if (op == "clb" || op == "cub") {
      if (n) {
        int64_t bnd = 0;
        int f = op == "clb" ? pluto_constraints_get_const_lb(A, pos, &bnd) : pluto_constraints_get_const_ub(A, pos, &bnd);
        ret = {f ? 1 : 0, f ? clampl(bnd) : 0};
      } else skip = 1;
    }
    else if (op == "mat") {
      if (single) {
        PlutoMatrix *m = pluto_constraints_to_matrix(A);
        copy_in(pluto_constraints_from_matrix(m));
        pluto_matrix_free(m);
      } else skip = 1;
    }
    else if (op == "file") {
      if (single && A->nrows > 0) {
        FILE *fp = tmpfile();
        pluto_constraints_print_polylib(fp, A);
        rewind(fp);
        copy_in(pluto_constraints_read(fp, ctx));
        fclose(fp);
      } else skip = 1;
    }
    else if (op == "empty") {
      PlutoConstraints *x = boxed(A, lo, hi);
      ret.push_back(pluto_constraints_is_empty(x) ? 1 : 0);
      pluto_constraints_free(x);
    }
    else if (op == "norm") { if (single && row >= 0) pluto_constraints_normalize_row(A, row); else skip = 1; }
    else if (op == "lexmin" && !single) skip = 1;
    else if (op == "lexmin") {
      PlutoConstraints *x = boxed(A, lo, hi);
      int64_t *s = pluto_constraints_lexmin(x, v & 1);
      v = v & 1;
      if (s) ret = vec_json(s, n);
      free(s);
      pluto_constraints_free(x);
    }
    else if (op == "best") {
      if (n) { int m = 1 + i % n; pos = m; ret.push_back(pluto_constraints_best_elim_candidate(A, m)); } else skip = 1;
    }
    else if (op == "nnz") ret.push_back(pluto_constraints_get_num_non_zero_coeffs(A));
    else if (op == "farkas") {
      // A boxed, and B's first row block as the affine form over 2 unknowns
      int k = 2;
      if (single && n >= 1 && n <= 2) {
        PlutoConstraints *x = boxed(A, lo, hi);
        PlutoMatrix *phi = pluto_matrix_alloc(n + 1, k + 1, ctx);
        for (int r = 0; r <= n; r++)
          for (int q = 0; q <= k; q++) phi->val[r][q] = o["phi"][r][q].get<long>();
        PlutoConstraints *f = farkas_lemma_affine(x, phi);
        ret = cst_json(f);
        if (too_big(f)) skip = 1;
        pluto_constraints_free(f);
        pluto_constraints_free(x);
        pluto_matrix_free(phi);
      } else skip = 1;
    }
    else skip = 1;
    bool big = false;
    for (auto *x : R) big |= too_big(x);
    if (big) break;
    json st = {{"pos", pos}, {"v", v}};
    snap(ret, skip);
    steps.back()["x"] = st;
  }
  for (auto *x : R) pluto_constraints_free(x);
  pluto_context_free(ctx);
  return {{"ret", "ok"}, {"steps", steps}};
}

static json run_mat(const json &c) {
  PlutoContext *ctx = pluto_context_alloc();
  std::vector<PlutoMatrix *> R;
  for (auto &r : c["regs"]) R.push_back(mat_from(r["d"], r["n"].get<int>(), ctx));
  json steps = json::array();
  auto snap = [&](const json &ret, int skip, json x) {
    json g = json::array();
    for (auto *m : R) g.push_back({{"n", (int)m->ncols}, {"d", mat_json(m)}});
    steps.push_back({{"regs", g}, {"ret", ret}, {"skip", skip}, {"x", x}});
  };
  snap(json::array(), 0, json::object());
  for (auto &o : c["ops"]) {
    std::string op = o["op"];
    int a = o["a"].get<int>() - 1, b = o["b"].get<int>() - 1, i = o["i"], j = o["v"];
    PlutoMatrix *&A = R[a];
    PlutoMatrix *B = R[b];
    int skip = 0;
    json ret = json::array();
    int nr = A->nrows, nc = A->ncols;
    auto copy_in = [&](PlutoMatrix *x) { pluto_matrix_free(A); A = x; };
    if (op == "dup") { if (a != b) copy_in(pluto_matrix_dup(B)); else skip = 1; }
    else if (op == "ident") copy_in(pluto_matrix_identity(i = 1 + i % 3, ctx));
    else if (op == "prod") { if (nc == (int)B->nrows) { PlutoMatrix *p = pluto_matrix_product(A, B); copy_in(p); } else skip = 1; }
    else if (op == "addrows") { if (nc == (int)B->ncols && nr + B->nrows <= 5 && a != b) pluto_matrix_add(A, B); else skip = 1; }
    else if (op == "addrow") { if (nr < 4) pluto_matrix_add_row(A, i = i % (nr + 1)); else skip = 1; }
    else if (op == "addcol") { if (nc < 4) pluto_matrix_add_col(A, i = i % (nc + 1)); else skip = 1; }
    else if (op == "remrow") { if (nr > 1) pluto_matrix_remove_row(A, i = i % nr); else skip = 1; }
    else if (op == "remcol") { if (nc > 1) pluto_matrix_remove_col(A, i = i % nc); else skip = 1; }
    else if (op == "zerorow") pluto_matrix_zero_row(A, i = i % nr);
    else if (op == "zerocol") pluto_matrix_zero_col(A, i = i % nc);
    else if (op == "swaprows") pluto_matrix_interchange_rows(A, i = i % nr, j = j % nr);
    else if (op == "swapcols") pluto_matrix_interchange_cols(A, i = i % nc, j = j % nc);
    else if (op == "movecol") pluto_matrix_move_col(A, i = i % nc, j = j % nc);
    else if (op == "negrow") pluto_matrix_negate_row(A, i = i % nr);
    else if (op == "neg") pluto_matrix_negate(A);
    else if (op == "rev") pluto_matrix_reverse_rows(A);
    else if (op == "fill") pluto_matrix_set(A, j);
    else if (op == "norm") pluto_matrix_normalize_row(A, i = i % nr);
    else if (op == "gauss") { if (nc > 1 && nr > 1) gaussian_eliminate(A, i = i % nc, 1); else skip = 1; }
    else if (op == "rank") ret.push_back((int)pluto_matrix_get_rank(A));
    else if (op == "echelon") pluto_matrix_to_row_echelon(A);
    else if (op == "eq") ret.push_back(are_pluto_matrices_equal(A, B) ? 1 : 0);
    else if (op == "par") { if (nc == (int)B->ncols) ret.push_back(pluto_vector_is_parallel(A, i = i % nr, B, j = j % B->nrows) ? 1 : 0); else skip = 1; }
    else if (op == "normal") { if (nc == (int)B->ncols) ret.push_back(pluto_vector_is_normal(A, i = i % nr, B, j = j % B->nrows) ? 1 : 0); else skip = 1; }
    else if (op == "gcd") { ret.push_back((int)gcd(i, j)); ret.push_back((int)lcm(i, j)); }
    else skip = 1;
    bool big = false;
    for (auto *x : R) big |= too_big(x);
    if (big) break;
    snap(ret, skip, {{"i", i}, {"j", j}});
  }
  for (auto *x : R) pluto_matrix_free(x);
  pluto_context_free(ctx);
  return {{"ret", "ok"}, {"steps", steps}};
}

static json run_graph(const json &c) {
  PlutoContext *ctx = pluto_context_alloc();
  int n = c["n"];
  PlutoProg *prog = pluto_prog_alloc(ctx);
  for (int i = 0; i < n; i++) {
    int dim = c["dims"][i];
    PlutoConstraints *dom = pluto_constraints_alloc(1, dim + 1, ctx);
    PlutoMatrix *tr = pluto_matrix_alloc(1, dim + 1, ctx);
    tr->nrows = 0;
    Stmt *s = pluto_stmt_alloc(dim, dom, tr);
    pluto_constraints_free(dom);
    pluto_matrix_free(tr);
    s->id = i;
    prog->stmts = (Stmt **)realloc(prog->stmts, (i + 1) * sizeof(Stmt *));
    prog->stmts[i] = s;
    prog->nstmts = i + 1;
  }
  for (auto &e : c["deps"]) {
    Dep *d = pluto_dep_alloc();
    d->src = e[0].get<int>() - 1;
    d->dest = e[1].get<int>() - 1;
    d->type = e[2].get<int>() ? PLUTO_DEP_RAR : PLUTO_DEP_RAW;
    d->satisfied = e[3].get<int>();
    prog->deps = (Dep **)realloc(prog->deps, (prog->ndeps + 1) * sizeof(Dep *));
    prog->deps[prog->ndeps++] = d;
  }
  Graph *g = ddg_create(prog);
  prog->ddg = g;
  if (c.value("upd", 0)) ddg_update(g, prog);
  json out = {{"ret", "ok"}};
  json adj0 = mat_json(g->adj);
  ddg_compute_scc(prog);
  json scc = json::array(), st = json::array(), size = json::array(), maxd = json::array(), verts = json::array();
  for (int i = 0; i < n; i++) { scc.push_back(g->vertices[i].scc_id); st.push_back(prog->stmts[i]->scc_id); }
  compute_scc_vertices(g);
  for (int i = 0; i < g->num_sccs; i++) {
    size.push_back(g->sccs[i].size);
    maxd.push_back((int)g->sccs[i].max_dim);
    json v = json::array();
    for (int k = 0; k < g->sccs[i].size; k++) v.push_back(g->sccs[i].vertices[k] + 1);
    verts.push_back(v);
  }
  json direct = json::array();
  for (int a = 0; a < g->num_sccs; a++) { json r = json::array(); for (int b = 0; b < g->num_sccs; b++) r.push_back(ddg_sccs_direct_connected(g, prog, a, b) ? 1 : 0); direct.push_back(r); }
  out["direct"] = direct; out["created"] = adj0;
  out["scc"] = scc; out["stmtscc"] = st; out["nscc"] = g->num_sccs; out["size"] = size; out["maxdim"] = maxd; out["verts"] = verts;
  out["same"] = adj0 == mat_json(g->adj) ? 1 : 0;
  ddg_compute_cc(prog);
  json cc = json::array();
  for (int i = 0; i < n; i++) cc.push_back(prog->stmts[i]->cc_id);
  out["cc"] = cc; out["ncc"] = g->num_ccs;
  Graph *t = graph_transpose(g), *u = get_undirected_graph(g);
  out["transpose"] = mat_json(t->adj);
  out["undirected"] = mat_json(u->adj);
  json adjq = json::array();
  for (int i = 0; i < n; i++) { json r = json::array(); for (int k = 0; k < n; k++) r.push_back(is_adjacent(g, i, k) ? 1 : 0); adjq.push_back(r); }
  out["adjacent"] = adjq;
  if (c.value("noclosure", 0) == 0) compute_transitive_closure(t);
  out["closure"] = mat_json(t->adj);
  graph_free(t);
  graph_free(u);
  free_scc_vertices(g);
  for (int i = 0; i < g->num_sccs; i++) g->sccs[i].vertices = NULL;
  pluto_prog_free(prog);
  pluto_context_free(ctx);
  return out;
}

json run_comp(const json &c) {
  std::string m = c["m"];
  if (m == "cst") return run_cst(c);
  if (m == "mat") return run_mat(c);
  if (m == "graph") return run_graph(c);
  return {{"ret", "unknown"}};
}
