// Workload generation and comparison helpers.
#include "props.hh"
#include <array>
#include <algorithm>
std::vector<Prop> &props_reg() {
  static std::vector<Prop> v;
  return v;
}
bool has_preempt(const std::string &lib) { return lib.size() > 2 && lib.substr(lib.size() - 2) == "ts"; }
Policy rpol(Ctx &c, const std::string &name, int nrank, bool preempt) {
  Rng r = c.rng(name);
  Policy p = random_policy(r, nrank, preempt && has_preempt(c.lib));
  p.after = 0;
  return p;
}
ExecOpts work(Ctx &c, const Feat &f) {
  ExecOpts o;
  o.lib = c.lib;
  o.pseed = c.key("pseed") >> 1;
  o.fill = c.P("fill", {0x5a, 0, 0xff, 0x7f});
  std::vector<i64> nrs;
  for (int i : {2, 4, 1, 3, 8, 6, 5, 7})
    if (i >= f.minrank && i <= f.maxrank) nrs.push_back(i);
  if (nrs.empty()) nrs.push_back(f.minrank);
  int nr = (int)c.P("nrank", nrs);
  o.nrank = nr;
  std::vector<std::array<int, 3>> tops;
  for (int a = 1; a <= nr; a++)
    if (nr % a == 0)
      for (int b = 1; b <= nr / a; b++)
        if (nr / a % b == 0) tops.push_back({a, b, nr / a / b});
  std::sort(tops.begin(), tops.end(), [](auto &x, auto &y) {
    auto m = [](const std::array<int, 3> &t) { return std::max(t[0], std::max(t[1], t[2])); };
    return m(x) < m(y);
  });
  int ti = (int)c.I("topo", 0, (i64)tops.size() - 1);
  auto t = tops[std::min<size_t>(ti, tops.size() - 1)];
  int lc[3];
  int flat = (int)c.P("flat", {-1, -1, -1, -1, 0, 1, 2});
  for (int a = 0; a < 3; a++) {
    lc[a] = (int)c.I(strf("cells%d", a), f.mincell, f.maxcell);
    if (flat == a && t[a] == 1) lc[a] = 1;
  }
  if (f.uneven && nr > 1 && c.B("uneven", f.uneven)) { // slabs of two cells and more
    seti(o, "uneven", c.I("unevenseed", 1, 1000));
    for (int a = 0; a < 3; a++)
      if (t[a] > 1) lc[a] = std::max(lc[a], std::max(3, f.mincell));
  }
  seti(o, "px", t[0]);
  seti(o, "py", t[1]);
  seti(o, "pz", t[2]);
  seti(o, "nx", lc[0] * t[0]);
  seti(o, "ny", lc[1] * t[1]);
  seti(o, "nz", lc[2] * t[2]);
  std::vector<i64> bcs;
  if (f.bc & 1) {
    bcs.push_back(0);
    bcs.push_back(0);
  }
  if (f.bc & 2) bcs.push_back(1);
  if (f.bc & 4) bcs.push_back(2);
  int bc = (int)c.P("bc", bcs);
  seti(o, "bc", bc);
  if (bc == 1) seti(o, "pbc", c.I("pbc", 0, 1));
  if (f.walls && bc && c.B("walls", 0.4))
    for (int w = 0; w < 6; w++) {
      i64 m = c.P(strf("wall%d", w), {0, 0, 5, 9, 6, 10, 68, 72, 132, 136});
      if (m) seti(o, strf("wall%d", w).c_str(), m);
    }
  seti(o, "nsteps", c.I("nsteps", f.minsteps, f.maxsteps));
  seti(o, "nsp", c.I("nsp", 1, 3));
  seti(o, "ppc", c.I("ppc", 1, f.heavy ? 8 : 4));
  seti(o, "wseed", (i64)(c.key("wseed") >> 40));
  setd(o, "ute", c.D("ute", {0.3, 0.05, 1.0, 4.0}));
  setd(o, "uti", c.D("uti", {0.05, 0.5}));
  if (c.B("drift", 0.3)) {
    setd(o, "drx", c.D("drx", {0, 1.5, -2}));
    setd(o, "dry", c.D("dry", {0, -1.5, 2}));
    setd(o, "drz", c.D("drz", {0, 1.2, -3}));
  }
  setd(o, "f0", c.D("f0", {0.01, 0.1, 0.4}));
  setd(o, "cfl", c.D("cfl", {0.9, 0.5, 0.98}));
  setd(o, "dx", c.D("dx", {1.0, 0.5, 1.25}));
  setd(o, "x0", c.D("x0", {0, -2.5, 1}));
  if (c.B("aniso", 0.5)) { // cells that are not cubes, in a box whose corner is not on the diagonal
    setd(o, "dyf", c.D("dyf", {1.0, 0.5, 2.0, 1.25}));
    setd(o, "dzf", c.D("dzf", {1.0, 2.0, 0.5, 0.75}));
    setd(o, "y0d", c.D("y0d", {0, 1, -3}));
    setd(o, "z0d", c.D("z0d", {0, -2, 5}));
  }
  if (c.B("units", 0.15)) {
    setd(o, "cvac", 2.0);
    setd(o, "eps0", 0.5);
  }
  if (c.B("sparse", 0.25)) setd(o, "fillfrac", c.D("fillfrac", {0.6, 0.2}));
  if (c.B("edgepos", 0.2)) seti(o, "edgepos", 1);
  if (c.B("nonneutral", 0.2)) seti(o, "neutral", 0);
  seti(o, "sorte", c.P("sorte", {3, 1, 0, 2, 5}));
  seti(o, "sorti", c.P("sorti", {3, 1, 0, 2}));
  seti(o, "oop", c.I("oop", 0, 1));
  seti(o, "useed", c.I("useed", 1, 1000));
  if (f.resize && c.B("tight", 0.4)) {
    const bool edge = ci(o, "edgepos", 0); // rounding decides which side of a boundary these are on
    setd(o, "maxnp", edge ? 1.6 : 1.0);
    seti(o, "maxnp0", edge ? 64 : c.P("maxnp0", {8, 2, 32}));
  }
  if (f.hole && nr > 1 && c.B("hole", 0.1)) {
    seti(o, "hole", (i64)c.U("holerank", nr));
    seti(o, "holenm", c.P("holenm", {1, 2, 8}));
  }
  if (f.cleaning) {
    seti(o, "cde", c.P("cde", {0, 1, 2, 3}));
    seti(o, "cdb", c.P("cdb", {0, 1, 2, 3}));
    seti(o, "sync", c.P("sync", {0, 1, 2, 3}));
    seti(o, "nde", c.I("nde", 1, 3));
    seti(o, "ndb", c.I("ndb", 1, 3));
  }
  if (f.mat && c.B("mat", 0.3)) {
    seti(o, "mat", c.I("matk", 1, 3));
    if (c.B("damp", 0.3)) setd(o, "damp", 0.05);
  } else if (f.mat && c.B("onemat", 0.2)) {
    seti(o, "onemat", c.I("onematk", 1, 2));
    if (c.B("damp1", 0.3)) setd(o, "damp", 0.05);
  }
  if (f.cbc && bc && c.B("cbc", 0.35)) {
    seti(o, "cbc", f.rng ? c.I("cbck", 1, 2) : 1);
    seti(o, "cbc_wall", c.P("cbcw", {0, 1, 8, 32, 41, 2, 4, 16, 63}));
  }
  if (f.coll && f.rng && c.B("coll", 0.3)) {
    int nsp = (int)ci(o, "nsp", 2);
    i64 m = 1ll << c.I("collk", 0, 7);
    if (c.B("coll2", 0.4)) m |= 1ll << c.I("collk2", 0, 7);
    if (nsp < 2) m &= ~(1ll | 8 | 32);
    seti(o, "coll", m);
    seti(o, "cint", c.I("cint", 1, 2));
  }
  if (f.emit && f.rng && c.B("emit", 0.2)) {
    seti(o, "emit", 1);
    seti(o, "nemit", c.I("nemit", 1, 2));
    seti(o, "emreg", c.I("emreg", 0, 7));
  }
  if (f.inj && c.B("inj", 0.3)) {
    seti(o, "inj", 1 | c.P("injk", {0, 2, 4, 6}));
    seti(o, "ninj", c.I("ninj", 1, 6));
  }
  if (f.current) {
    if (c.B("jant", 0.2)) setd(o, "jant", 0.01);
    if (c.B("eant", 0.15)) setd(o, "eant", 0.05);
  }
  if (f.big > 0 && nr <= 2 && c.B("big", f.big)) { // more particles on one process than any internal block size
    int cells = lc[0] * lc[1] * lc[2], want = (int)c.P("bign", {32768, 32769, 33000, 65536, 65537});
    seti(o, "ppc", (want + cells - 1) / cells);
    seti(o, "nsp", 1);
    seti(o, "coll", ci(o, "coll", 0) & ~(1ll | 8 | 32));
    o.cfg.erase("fillfrac");
    if (ci(o, "nsteps", 1) > 2) seti(o, "nsteps", 2);
  }
  seti(o, "rounds", c.P("rounds", {3, 3, 4, 6}));
  if (f.threads) {
    int tpp = (int)c.I("tpp", 1, f.maxtpp);
    if (f.maxtpp >= 3 && !has_preempt(c.lib) && c.B("manythreads", 0.03)) tpp = (int)c.P("manytpp", {8, 10, 12, 17});
    o.args = {"--tpp", std::to_string(tpp)};
  }
  seti(o, "rec", f.rec);
  return o;
}
void must_succeed(Ctx &c, const Exec &x, const char *what) {
  if (!x.ok()) {
    std::string last;
    for (auto &r : x.r)
      if (!r.log.empty() && r.st != E_RETURNED) {
        last = r.log.substr(r.log.size() > 300 ? r.log.size() - 300 : 0);
        break;
      }
    c.fail(std::string(what) + " did not complete cleanly: " + x.summary() + (last.empty() ? "" : " | log: " + last));
  }
}
bool overflowed(const Exec &x) {
  for (auto &r : x.r)
    if (r.log.find("nable to") != std::string::npos || r.log.find("ran out") != std::string::npos || r.log.find("gnor") != std::string::npos)
      return true;
  return false;
}
std::string first_difference(const Exec &a, const Exec &b, const std::function<bool(const std::string &)> &use) {
  for (size_t r = 0; r < a.r.size(); r++) {
    std::vector<const Rec *> A, B;
    for (auto &x : a.r[r].recs)
      if (!use || use(x.key)) A.push_back(&x);
    for (auto &x : b.r[r].recs)
      if (!use || use(x.key)) B.push_back(&x);
    for (size_t i = 0; i < std::min(A.size(), B.size()); i++) {
      if (A[i]->key != B[i]->key) return strf("rank %zu observed %s where the other run observed %s", r, A[i]->key.c_str(), B[i]->key.c_str());
      if (A[i]->data != B[i]->data) {
        size_t o = 0;
        while (o < A[i]->data.size() && o < B[i]->data.size() && A[i]->data[o] == B[i]->data[o]) o++;
        return strf("rank %zu: %s differs at byte %zu (sizes %zu, %zu)", r, A[i]->key.c_str(), o, A[i]->data.size(), B[i]->data.size());
      }
    }
    if (A.size() != B.size()) return strf("rank %zu recorded %zu observations against %zu", r, A.size(), B.size());
  }
  return "";
}
std::string fs_difference(const FS &a, const FS &b, const std::function<bool(const std::string &)> &use) {
  for (auto &f : a.files) {
    if (use && !use(f.first)) continue;
    auto it = b.files.find(f.first);
    if (it == b.files.end()) return "file " + f.first + " exists in one run only";
    if (it->second->data != f.second->data) {
      auto &p = f.second->data, &q = it->second->data;
      size_t o = 0;
      while (o < p.size() && o < q.size() && p[o] == q[o]) o++;
      return strf("file %s differs at byte %zu (sizes %zu, %zu)", f.first.c_str(), o, p.size(), q.size());
    }
  }
  for (auto &f : b.files)
    if ((!use || use(f.first)) && !a.files.count(f.first)) return "file " + f.first + " exists in one run only";
  return "";
}
bool view(const Exec &x, i64 step, i64 step0, int nsp, StepView &o) {
  o.step = step;
  o.r.clear();
  for (size_t r = 0; r < x.r.size(); r++) {
    RankView v;
    const std::string *g = x.rec((int)r, strf("geom.%lld", (long long)step0)), *n = x.rec((int)r, strf("gint.%lld", (long long)step0)),
                      *f = x.rec((int)r, strf("f.%lld", (long long)step));
    if (!g || !n || !f) return false;
    memcpy(&v.g, g->data(), sizeof v.g);
    memcpy(&v.n, n->data(), sizeof v.n);
    v.nv = f->size() / sizeof(PField);
    v.f = (const PField *)f->data();
    for (int k = 0; k < nsp; k++) {
      const std::string *p = x.rec((int)r, strf("p%d.%lld", k, (long long)step)), *q = x.rec((int)r, strf("n%d.%lld", k, (long long)step));
      if (!p) return false;
      v.sp.push_back({(const PPart *)p->data(), p->size() / sizeof(PPart)});
      std::array<int, 4> c{};
      if (q) memcpy(c.data(), q->data(), std::min<size_t>(16, q->size()));
      v.cnt.push_back(c);
    }
    o.r.push_back(v);
  }
  return true;
}
i64 first_full(const Exec &x) { // the first step at which the deck had no room to inject (the adaptive store had shrunk)
  i64 best = 1ll << 60;
  for (auto &r : x.r)
    for (auto &q : r.recs)
      if (q.key.compare(0, 5, "full.") == 0) best = std::min<i64>(best, atoll(q.key.c_str() + 5));
  return best;
}
size_t announced_removals(const Exec &x) {
  size_t n = 0;
  for (auto &r : x.r)
    for (size_t p = 0; (p = r.log.find("Removing ", p)) != std::string::npos; p++) n += (size_t)atoi(r.log.c_str() + p + 9);
  return n;
}
