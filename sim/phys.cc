#include "phys.hh"
#include <climits>
std::string place(const World3 &w, const RankView &v, int rank, int sp, const PPart &p, GP &o) {
  int sx = v.n.nx + 2, sy = v.n.ny + 2;
  int c[3] = {p.i % sx, p.i / sx % sy, p.i / (sx * sy)};
  auto off = offset(w, v);
  const int *n = local_n(v);
  const float *dx = &p.dx;
  if (p.i < 0 || (size_t)p.i >= v.nv) return strf("species %d: cell index %d is outside the local mesh of rank %d", sp, p.i, rank);
  for (int a = 0; a < 3; a++) {
    if (c[a] < 1 || c[a] > n[a])
      return strf("species %d: a particle of rank %d is in ghost cell (%d,%d,%d) of a %dx%dx%d domain", sp, rank, c[0], c[1], c[2], n[0], n[1], n[2]);
    if (!(dx[a] >= -1.0f && dx[a] <= 1.0f)) return strf("species %d: cell offset %g of a particle of rank %d is outside [-1,1]", sp, dx[a], rank);
    o.cell[a] = off[a] + c[a] - 1;
    o.x[a] = off[a] + (c[a] - 1) + 0.5 * (1 + (double)dx[a]);
  }
  o.u[0] = p.ux;
  o.u[1] = p.uy;
  o.u[2] = p.uz;
  for (int a = 0; a < 3; a++)
    if (!std::isfinite(o.u[a])) return strf("species %d: momentum of a particle of rank %d is not finite", sp, rank);
  o.rank = rank;
  o.sp = sp;
  o.w = p.w;
  o.raw = &p;
  return "";
}
std::string collect(const World3 &w, const StepView &s, PMap &out, std::vector<GP> *all) {
  out.clear();
  for (size_t r = 0; r < s.r.size(); r++)
    for (size_t k = 0; k < s.r[r].sp.size(); k++)
      for (size_t i = 0; i < s.r[r].sp[k].second; i++) {
        const PPart &p = s.r[r].sp[k].first[i];
        GP g;
        std::string e = place(w, s.r[r], (int)r, (int)k, p, g);
        if (!e.empty()) return e;
        u32 b;
        memcpy(&b, &p.w, 4);
        if (all) all->push_back(g);
        auto ins = out.emplace(std::make_pair((int)k, b), g);
        if (!ins.second && !all)
          return strf("particle of species %zu with weight %.9g exists twice (ranks %d and %zu)", k, p.w, ins.first->second.rank, r);
      }
  return "";
}
std::array<bool, 3> periodic_axes(const World3 &w) {
  std::array<bool, 3> p;
  for (int a = 0; a < 3; a++) p[a] = w.wall[a] == INT_MIN || w.wall[a + 3] == INT_MIN;
  return p;
}
double image_dist(const World3 &w, const std::array<bool, 3> &per, const GP &a, const GP &b, int x) {
  double d = a.x[x] - b.x[x];
  if (per[x]) d -= w.N[x] * std::floor(d / w.N[x] + 0.5);
  return d;
}
std::vector<double> charges(const ExecOpts &o) {
  static const double Q[4] = {-1, 1, 0, -1};
  std::vector<double> q;
  for (int k = 0; k < (int)ci(o, "nsp", 2); k++) q.push_back(k == 0 && ci(o, "qe0", 0) ? 0.0 : cf(o, k == 1 ? "qi" : "qx", Q[k]));
  return q;
}
double total_charge(const World3 &w, const StepView &s, const std::vector<double> &q, double *scale) {
  double t = 0, m = 0;
  double V = w.V;
  for (auto &v : s.r) {
    for (size_t k = 0; k < v.sp.size(); k++)
      for (size_t i = 0; i < v.sp[k].second; i++) {
        double c = q[k] * v.sp[k].first[i].w;
        t += c;
        m += fabs(c);
      }
    for (int k = 1; k <= v.n.nz + 1; k++)
      for (int j = 1; j <= v.n.ny + 1; j++)
        for (int i = 1; i <= v.n.nx + 1; i++) {
          double f = V;
          if (i == 1 || i == v.n.nx + 1) f *= .5;
          if (j == 1 || j == v.n.ny + 1) f *= .5;
          if (k == 1 || k == v.n.nz + 1) f *= .5;
          double c = f * v.f[v.v(i, j, k)].rhob;
          t += c;
          m += fabs(c);
        }
  }
  if (scale) *scale = m;
  return t;
}
StepView need(Ctx &c, const Exec &x, i64 step, const World3 &w, i64 step0) {
  StepView s;
  if (!view(x, step, step0, w.nsp, s)) c.fail(strf("the state at step %lld was not observed on every rank", (long long)step));
  for (size_t r = 0; r < s.r.size(); r++)
    for (size_t k = 0; k < s.r[r].cnt.size(); k++) {
      auto &n = s.r[r].cnt[k];
      if (n[1] != 0) c.fail(strf("rank %zu species %zu: %d particles left in flight at the end of step %lld", r, k, n[1], (long long)step));
      if (n[0] < 0 || n[0] > n[2]) c.fail(strf("rank %zu species %zu: %d particles in room for %d at step %lld", r, k, n[0], n[2], (long long)step));
    }
  return s;
}

std::string free_flight(const World3 &w, const std::array<bool, 3> &per, const std::vector<GP> &prev, const std::vector<GP> &now, double dt,
                        std::vector<int> &from) {
  if (now.size() != prev.size()) return strf("%zu particles became %zu", prev.size(), now.size());
  std::multimap<double, size_t> byx[4];
  for (size_t i = 0; i < prev.size(); i++) byx[prev[i].sp].emplace(prev[i].x[0], i);
  std::vector<char> used(prev.size(), 0);
  from.assign(now.size(), -1);
  for (size_t i = 0; i < now.size(); i++) {
    const GP &g = now[i];
    double gm = sqrt(1 + g.u[0] * g.u[0] + g.u[1] * g.u[1] + g.u[2] * g.u[2]);
    GP b = g;
    for (int x = 0; x < 3; x++) {
      b.x[x] -= g.u[x] / gm * w.cvac * dt / w.h[x];
      b.x[x] -= w.N[x] * floor(b.x[x] / w.N[x]);
    }
    long best = -1;
    double bd = 3e-5;
    auto &mm = byx[g.sp];
    for (int wrap = -1; wrap <= 1; wrap++)
      for (auto it = mm.lower_bound(b.x[0] + wrap * w.N[0] - 4e-5); it != mm.end() && it->first < b.x[0] + wrap * w.N[0] + 4e-5; ++it) {
        if (used[it->second]) continue;
        double d = 0;
        for (int x = 0; x < 3; x++) d = std::max(d, fabs(image_dist(w, per, b, prev[it->second], x)));
        if (d < bd) {
          bd = d;
          best = (long)it->second;
        }
      }
    if (best < 0)
      return strf("a particle of species %d at (%.7g,%.7g,%.7g) did not come from any particle of the step before by free flight", g.sp, g.x[0],
                  g.x[1], g.x[2]);
    used[best] = 1;
    from[i] = (int)best;
  }
  return "";
}
