// plh: replays specification-generated cases into libpluto, one forked child
// per case, and writes what the library did as one JSON line per case.
//   plh IN.ndjson OUT.ndjson TIMEOUT_S SCRATCH_DIR FIRST STEP
#include "plh.h"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

long clampl(long long v) {
  if (v > 1000000LL) return 1000000L;
  if (v < -1000000LL) return -1000000L;
  return (long)v;
}
json mat_json(const PlutoMatrix *m) {
  json r = json::array();
  if (!m) return r;
  for (unsigned i = 0; i < m->nrows; i++) {
    json row = json::array();
    for (unsigned j = 0; j < m->ncols; j++) row.push_back(clampl(m->val[i][j]));
    r.push_back(row);
  }
  return r;
}
json cst_single_json(const PlutoConstraints *c) {
  json r = json::array();
  for (unsigned i = 0; i < c->nrows; i++) {
    json row = json::array();
    row.push_back(c->is_eq[i] ? 1 : 0);
    for (unsigned j = 0; j < c->ncols; j++) row.push_back(clampl(c->val[i][j]));
    r.push_back(row);
  }
  return r;
}
json cst_json(const PlutoConstraints *c) {
  json r = json::array();
  for (; c; c = c->next) r.push_back(cst_single_json(c));
  return r;
}
PlutoMatrix *mat_from(const json &j, unsigned ncols, PlutoContext *ctx) {
  PlutoMatrix *m = pluto_matrix_alloc(j.size(), ncols, ctx);
  for (unsigned i = 0; i < j.size(); i++)
    for (unsigned k = 0; k < ncols; k++) m->val[i][k] = j[i][k].get<long>();
  m->nrows = j.size();
  m->ncols = ncols;
  return m;
}
PlutoConstraints *cst_single_from(const json &rows, unsigned ncols, PlutoContext *ctx) {
  PlutoConstraints *c = pluto_constraints_alloc(rows.size() ? rows.size() : 1, ncols, ctx);
  c->nrows = rows.size();
  c->ncols = ncols;
  for (unsigned i = 0; i < rows.size(); i++) {
    c->is_eq[i] = rows[i][0].get<int>();
    for (unsigned k = 0; k < ncols; k++) c->val[i][k] = rows[i][k + 1].get<long>();
  }
  return c;
}
PlutoConstraints *cst_from(const json &disj, unsigned ncols, PlutoContext *ctx) {
  PlutoConstraints *head = NULL, *last = NULL;
  for (auto &d : disj) {
    PlutoConstraints *c = cst_single_from(d, ncols, ctx);
    if (!head) head = c; else last->next = c;
    last = c;
  }
  return head;
}
#define OPT(f) if (j.contains(#f)) o->f = decltype(o->f)(j[#f].get<long>())
void set_opts(PlutoOptions *o, const json &j) {
  o->isldepaccesswise = 0;
  OPT(tile); OPT(intratileopt); OPT(diamondtile); OPT(fulldiamondtile); OPT(per_cc_obj);
  OPT(parallel); OPT(innerpar); OPT(unrolljam); OPT(ufactor); OPT(prevector); OPT(rar);
  OPT(fuse); OPT(delayed_cut); OPT(hybridcut); OPT(forceparallel); OPT(multipar);
  OPT(second_level_tile); OPT(find_tile_sizes); OPT(cache_size); OPT(data_element_size);
  OPT(ft); OPT(lt); OPT(debug); OPT(moredebug); OPT(identity); OPT(lastwriter);
  OPT(nodepbound); OPT(coeff_bound); OPT(silent); OPT(pipsolve); OPT(islsolve);
  OPT(glpk); OPT(lp); OPT(dfp); OPT(ilp); OPT(lpcolour); OPT(scc_cluster); OPT(iss);
  OPT(time); OPT(flic); OPT(isldepcoalesce); OPT(codegen_context); OPT(quiet);
}

static void write_all(int fd, const std::string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(97);
    o += n;
  }
}

int main(int argc, char **argv) {
  if (argc < 7) { fprintf(stderr, "usage\n"); return 2; }
  std::ifstream in(argv[1]);
  std::string outname = argv[2], scratch = argv[4];
  double tmo = atof(argv[3]);
  long first = atol(argv[5]), step = atol(argv[6]);
  std::ofstream out(outname);
  std::string line;
  for (long n = 0; std::getline(in, line); n++) {
    if (line.empty() || n % step != first) continue;
    json c = json::parse(line);
    char tmpl[4096];
    snprintf(tmpl, sizeof tmpl, "%s/cXXXXXX", scratch.c_str());
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    std::string dir = tmpl, res = dir + "/.result";
    int rfd = open(res.c_str(), O_RDWR | O_CREAT, 0600);
    pid_t pid = fork();
    if (pid == 0) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      rl = {3UL << 30, 3UL << 30};
      if (!getenv("PLH_NOLIMIT")) setrlimit(RLIMIT_AS, &rl);
      if (chdir(dir.c_str())) _exit(98);
      for (auto &f : c.value("files", json::array())) {
        std::ofstream o(f[0].get<std::string>());
        o << f[1].get<std::string>();
      }
      int so = getenv("PLH_STDOUT") ? open(getenv("PLH_STDOUT"), O_WRONLY | O_CREAT | O_TRUNC, 0600) : open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
      fflush(stdout);
      dup2(so, 1);
      int de = getenv("PLH_STDERR") ? 2 : open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if (de != 2) dup2(de, 2);
      struct itimerval it = {};
      it.it_value.tv_sec = (long)tmo;
      it.it_value.tv_usec = (long)((tmo - (long)tmo) * 1e6);
      setitimer(ITIMER_REAL, &it, NULL);
      json r;
      std::string kind = c["kind"];
      r = kind == "comp" ? run_comp(c) : run_pipe(c);
      fflush(stdout);
      write_all(rfd, r.dump());
      _exit(0);
    }
    int st;
    struct rusage ru;
    wait4(pid, &st, 0, &ru);
    json rec;
    std::string status = "ok";
    if (WIFSIGNALED(st)) status = WTERMSIG(st) == SIGALRM ? "timeout" : "crash";
    else if (WEXITSTATUS(st) != 0) status = "exit";
    // out of memory (the limit above, or the machine's): no answer, like running out of time
    if (status != "ok" && (ru.ru_maxrss > (9L << 18) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))) status = "timeout";
    json r = json::object();
    if (status == "ok") {
      lseek(rfd, 0, SEEK_SET);
      std::string s;
      char buf[65536];
      ssize_t k;
      while ((k = read(rfd, buf, sizeof buf)) > 0) s.append(buf, k);
      try { r = json::parse(s); } catch (...) { status = "exit"; }
    }
    rec["in"] = c;
    rec["status"] = status;
    if (status != "ok") {
      std::ifstream e(dir + "/stderr.txt");
      std::string s((std::istreambuf_iterator<char>(e)), std::istreambuf_iterator<char>());
      rec["sig"] = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
      rec["err"] = s.substr(0, 1500);
    }
    rec["out"] = r;
    out << rec.dump() << "\n";
    out.flush();
    close(rfd);
    std::string cmd = dir + "/.result";
    // Only names this program itself may have created, inside its own scratch.
    std::string rm = "rm -rf -- '" + dir + "'";
    if (system(rm.c_str())) {}
  }
  return 0;
}
