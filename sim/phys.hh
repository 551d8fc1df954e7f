// Double-precision view of a recorded execution: global particles and grids.
#pragma once
#include "props.hh"
#include <array>
#include <algorithm>
#include <climits>
struct GP {
  int rank = 0;
  double x[3] = {0, 0, 0};
  double u[3] = {0, 0, 0};
  int cell[3] = {0, 0, 0};
  float w = 0;
  int sp = 0;
  const PPart *raw = nullptr;
};
typedef std::map<std::pair<int, u32>, GP> PMap; // (species, weight bits) -> particle
struct World3 {
  int N[3], P[3];
  double h[3], org[3], V, dt, cvac, eps0; // cell sizes, low corner, cell volume
  int nsp;
  i64 nsteps;
  int bc;
  std::array<int, 6> wall; // global geometry; wall: what the deck asked each face to do with particles (-1 reflect, -2 absorb, -3 handler, INT_MIN
                           // joined to the opposite face)
  explicit World3(const ExecOpts &o) {
    N[0] = (int)ci(o, "nx", 4);
    N[1] = (int)ci(o, "ny", 4);
    N[2] = (int)ci(o, "nz", 4);
    P[0] = (int)ci(o, "px", 1);
    P[1] = (int)ci(o, "py", 1);
    P[2] = (int)ci(o, "pz", 1);
    h[0] = cf(o, "dx", 1);
    h[1] = h[0] * cf(o, "dyf", 1);
    h[2] = h[0] * cf(o, "dzf", 1);
    V = h[0] * h[1] * h[2];
    org[0] = cf(o, "x0", 0);
    org[1] = org[0] + cf(o, "y0d", 0);
    org[2] = org[0] + cf(o, "z0d", 0);
    cvac = cf(o, "cvac", 1);
    eps0 = cf(o, "eps0", 1);
    nsp = (int)ci(o, "nsp", 2);
    nsteps = ci(o, "nsteps", 4);
    bc = (int)ci(o, "bc", 0);
    dt = 0;
    for (int q = 0; q < 6; q++) {
      wall[q] = INT_MIN;
      if (flat(q % 3) || !bc) continue;
      wall[q] = bc == 2 || ci(o, "pbc", 0) ? -1 : -2;
      i64 m = ci(o, strf("wall%d", q).c_str(), 0);
      if (m & 4) wall[q] = -1;
      if (m & 8) wall[q] = -2;
    }
    i64 cw = ci(o, "cbc", 0) ? ci(o, "cbc_wall", 0) : 0;
    for (int q = 0; q < 6; q++)
      if ((cw >> q & 1) && !flat(q % 3)) wall[q] = -3;
  }
  bool flat(int a) const { return N[a] == 1; }
};
// what the deck asked a face of the box to do with fields: -1 conducting, -2 symmetry plane, -3 magnetic wall, -4 absorbing, 0 joined
inline int field_wall(const ExecOpts &o, const World3 &w, int q) {
  if (!w.bc || w.flat(q % 3)) return 0;
  i64 m = ci(o, strf("wall%d", q).c_str(), 0);
  return m & 128 ? -2 : m & 64 ? -3 : m & 2 ? -4 : m & 1 ? -1 : w.bc == 1 ? -4 : -1;
}
inline std::array<int, 3> offset(const World3 &w, const RankView &v) {
  std::array<int, 3> o;
  const float *x = &v.g.x0;
  for (int a = 0; a < 3; a++) o[a] = (int)lrint((x[a] - w.org[a]) / w.h[a]);
  return o;
}
inline const int *local_n(const RankView &v) { return &v.n.nx; }
std::string place(const World3 &w, const RankView &v, int rank, int sp, const PPart &p,
                  GP &out); // "" or why the particle is not where a particle may be
std::string collect(const World3 &w, const StepView &s, PMap &out, std::vector<GP> *all = nullptr); // identities must be unique
double image_dist(const World3 &w, const std::array<bool, 3> &per, const GP &a, const GP &b, int axis);
std::array<bool, 3> periodic_axes(const World3 &w);
// which particle of before each particle of now was, when only its momentum changed before it flew freely for dt
std::string free_flight(const World3 &w, const std::array<bool, 3> &per, const std::vector<GP> &prev, const std::vector<GP> &now, double dt,
                        std::vector<int> &from);
struct NodeGrid {
  int n[3];
  std::vector<double> v;
  NodeGrid(const World3 &w) {
    for (int a = 0; a < 3; a++) n[a] = w.N[a] + 1;
    v.assign((size_t)n[0] * n[1] * n[2], 0);
  }
  double &at(int i, int j, int k) { return v[i + (size_t)n[0] * (j + (size_t)n[1] * k)]; }
};
enum { C_EX, C_EY, C_EZ, C_BX, C_BY, C_BZ, C_RHOB, C_ERR };
inline float comp(const PField &f, int c) {
  switch (c) {
  case C_EX:
    return f.ex;
  case C_EY:
    return f.ey;
  case C_EZ:
    return f.ez;
  case C_BX:
    return f.cbx;
  case C_BY:
    return f.cby;
  case C_BZ:
    return f.cbz;
  case C_RHOB:
    return f.rhob;
  default:
    return f.div_e_err;
  }
}
// extent of a component on a mesh of n cells: node-like axes have n+1 entries
inline void extent(int c, const int *n, int *e) {
  for (int a = 0; a < 3; a++) {
    bool node;
    if (c <= C_EZ) node = (a != c - C_EX);
    else if (c <= C_BZ) node = (a == c - C_BX);
    else node = true;
    e[a] = n[a] + (node ? 1 : 0);
  }
}
double total_charge(const World3 &w, const StepView &s, const std::vector<double> &q, double *scale = nullptr);
std::vector<double> charges(const ExecOpts &o);
StepView need(Ctx &c, const Exec &x, i64 step, const World3 &w, i64 step0 = 0);
