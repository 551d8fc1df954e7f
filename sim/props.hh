// Scenario harness: one run of one property = one seed = one repeatable set of executions.
#pragma once
#include "sim.hh"
#include <cmath>
struct Violation {
  std::string msg;
};
struct Discard {
  std::string why;
};
struct Draw {
  std::string name, val;
  std::vector<std::string> simpler;
};
struct Ctx {
  std::string prop, lib;
  u64 seed = 1;
  int tier = 0;
  std::map<std::string, std::string> over;
  std::vector<Draw> draws;
  std::set<u64> nontriv;
  u64 key(const std::string &n) const { return mix(seed, hash_bytes(n.data(), n.size())); }
  Rng rng(const std::string &n) const { return Rng(key(n)); }
  std::string raw(const std::string &n, const std::string &v, std::vector<std::string> simpler) {
    auto it = over.find(n);
    std::string r = it == over.end() ? v : it->second;
    draws.push_back(Draw{n, r, std::move(simpler)});
    return r;
  }
  i64 I(const std::string &n, i64 lo, i64 hi) {
    std::vector<std::string> s;
    i64 v = rng(n).range(lo, hi);
    if (v != lo) {
      s.push_back(std::to_string(lo));
      if ((v + lo) / 2 != lo && (v + lo) / 2 != v) s.push_back(std::to_string((v + lo) / 2));
      if (v - 1 != lo) s.push_back(std::to_string(v - 1));
    }
    return atoll(raw(n, std::to_string(v), s).c_str());
  }
  bool B(const std::string &n, double p) {
    bool v = rng(n).chance(p);
    std::vector<std::string> s;
    if (v) s.push_back("0");
    return raw(n, v ? "1" : "0", s) != "0";
  }
  std::string S(const std::string &n, const std::vector<std::string> &v) {
    size_t i = rng(n).below(v.size());
    std::vector<std::string> s;
    if (i) s.push_back(v[0]);
    return raw(n, v[i], s);
  }
  i64 P(const std::string &n, const std::vector<i64> &v) {
    std::vector<std::string> s;
    for (auto x : v) s.push_back(std::to_string(x));
    return atoll(S(n, s).c_str());
  }
  double D(const std::string &n, const std::vector<double> &v) {
    std::vector<std::string> s;
    for (auto x : v) s.push_back(strf("%.17g", x));
    return atof(S(n, s).c_str());
  }
  u64 U(const std::string &n, u64 bound) {
    u64 v = bound ? rng(n).below(bound) : 0;
    return strtoull(raw(n, std::to_string(v), {}).c_str(), nullptr, 10);
  }
  [[noreturn]] void fail(const std::string &m) const { throw Violation{m}; }
  [[noreturn]] void discard(const std::string &m) const { throw Discard{m}; }
  void nontrivial(u64 h) { nontriv.insert(h); }
};
struct Prop {
  const char *id;
  std::vector<std::string> libs;
  void (*fn)(Ctx &);
  const char *rule;
};
std::vector<Prop> &props_reg();
#define props props_reg()
struct Reg {
  Reg(const char *id, std::vector<std::string> libs, void (*fn)(Ctx &), const char *rule) { props_reg().push_back(Prop{id, libs, fn, rule}); }
};
#define PROPERTY(ID, RULE, ...)                                                                                                                      \
  static void run_##ID(Ctx &c);                                                                                                                      \
  static Reg reg_##ID(#ID, {__VA_ARGS__}, run_##ID, RULE);                                                                                           \
  static void run_##ID(Ctx &c)

// --------------------------------------------------------------- workloads
struct Feat { // what the workload may contain
  int maxrank = 8, minrank = 1;
  bool threads = true;
  int bc = 3; /* 1 periodic 2 absorbing 4 reflecting */
  bool coll = true, emit = true, inj = true, cbc = true, mat = true, walls = true, current = true, cleaning = true, rng = true;
  int mincell = 2, maxcell = 4, maxsteps = 6, minsteps = 2, maxtpp = 4;
  int rec = 1;
  bool heavy = false;
  bool resize = true;
  bool hole = false;   // may leave one process without particles and with hardly any room for moving ones
  double uneven = 0.2; // how often the processes own boxes of different sizes
  double big = 0;      // how often one process holds more than 32768 particles
};
ExecOpts work(Ctx &c, const Feat &f);
Policy rpol(Ctx &c, const std::string &name, int nrank, bool preempt);
bool has_preempt(const std::string &lib);
inline double cf(const ExecOpts &o, const char *k, double d) {
  auto it = o.cfg.find(k);
  return it == o.cfg.end() ? d : atof(it->second.c_str());
}
inline i64 ci(const ExecOpts &o, const char *k, i64 d) {
  auto it = o.cfg.find(k);
  return it == o.cfg.end() ? d : atoll(it->second.c_str());
}
inline void seti(ExecOpts &o, const char *k, i64 v) { o.cfg[k] = std::to_string(v); }
inline void setd(ExecOpts &o, const char *k, double v) { o.cfg[k] = strf("%.17g", v); }
void must_succeed(Ctx &c, const Exec &x, const char *what); // a fault-free run completes cleanly
std::string first_difference(const Exec &a, const Exec &b, const std::function<bool(const std::string &)> &use = nullptr);
std::string fs_difference(const FS &a, const FS &b, const std::function<bool(const std::string &)> &use = nullptr);
bool overflowed(const Exec &x); // the code announced that the user's particle/mover limits were exceeded

size_t announced_removals(const Exec &x); // particles the code said it dropped because they were still moving after the last exchange round
i64 first_full(const Exec &x);
// layout of what the deck records (mirrors the public structs)
struct PField {
  float ex, ey, ez, div_e_err, cbx, cby, cbz, div_b_err, tcax, tcay, tcaz, rhob, jfx, jfy, jfz, rhof;
  int16_t ematx, ematy, ematz, nmat, fmatx, fmaty, fmatz, cmat;
};
struct PPart {
  float dx, dy, dz;
  int32_t i;
  float ux, uy, uz, w;
};
struct PGeom {
  float x0, y0, z0, x1, y1, z1, dx, dy, dz, dt, cvac, eps0, pad[4];
};
struct PGint {
  int nx, ny, nz, rank, nproc, bc[6], pad[5];
};
struct RankView {
  PGeom g;
  PGint n;
  const PField *f = nullptr;
  size_t nv = 0;
  std::vector<std::pair<const PPart *, size_t>> sp;
  std::vector<std::array<int, 4>> cnt;
  int v(int i, int j, int k) const { return i + (n.nx + 2) * (j + (n.ny + 2) * k); }
};
struct StepView {
  i64 step;
  std::vector<RankView> r;
};
bool view(const Exec &x, i64 step, i64 step0, int nsp, StepView &out); // false: not recorded
