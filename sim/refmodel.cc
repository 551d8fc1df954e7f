#include "refmodel.hh"

static float raw(const PField &f, int c) {
  switch (c) {
  case M_EX:
    return f.ex;
  case M_EY:
    return f.ey;
  case M_EZ:
    return f.ez;
  case M_BX:
    return f.cbx;
  case M_BY:
    return f.cby;
  case M_BZ:
    return f.cbz;
  case M_JX:
    return f.jfx;
  case M_JY:
    return f.jfy;
  case M_JZ:
    return f.jfz;
  case M_TX:
    return f.tcax;
  case M_TY:
    return f.tcay;
  default:
    return f.tcaz;
  }
}
static int kind(int c) { return c < 6 ? c : (c < 9 ? c - 6 : c - 9); } // currents and time-centred curls live where E lives

void gather_fields(const World3 &w, const StepView &s, Fields &f) {
  f.emax = f.bmax = f.jmax = 0;
  for (int c = 0; c < M_N; c++) {
    int ext[3];
    extent(kind(c), w.N, ext);
    f.m[c].init(ext);
    for (auto &v : s.r) {
      auto o = offset(w, v);
      int e[3];
      extent(kind(c), local_n(v), e);
      for (int k = 1; k <= e[2]; k++)
        for (int j = 1; j <= e[1]; j++)
          for (int i = 1; i <= e[0]; i++) {
            double x = raw(v.f[v.v(i, j, k)], c);
            double &m = c < 3 ? f.emax : c < 6 ? f.bmax : f.jmax;
            if (c < 9) m = std::max(m, fabs(x));
            f.m[c].at(o[0] + i - 1, o[1] + j - 1, o[2] + k - 1) = x;
          }
    }
  }
}

static void e_at(const Fields &f, const GP &p, double E[3]) {
  const int *c = p.cell;
  double t[3];
  for (int a = 0; a < 3; a++) t[a] = p.x[a] - c[a];
  for (int a = 0; a < 3; a++) {
    int b = (a + 1) % 3, d = (a + 2) % 3;
    double s = 0;
    for (int m = 0; m < 2; m++)
      for (int n = 0; n < 2; n++) {
        int q[3] = {c[0], c[1], c[2]};
        q[b] += m;
        q[d] += n;
        s += (m ? t[b] : 1 - t[b]) * (n ? t[d] : 1 - t[d]) * f.m[M_EX + a].at(q[0], q[1], q[2]);
      }
    E[a] = s;
  }
}
static void b_at(const Fields &f, const GP &p, double B[3]) {
  const int *c = p.cell;
  for (int a = 0; a < 3; a++) {
    double t = p.x[a] - c[a];
    int q[3] = {c[0], c[1], c[2]};
    double lo = f.m[M_BX + a].at(q[0], q[1], q[2]);
    q[a]++;
    B[a] = (1 - t) * lo + t * f.m[M_BX + a].at(q[0], q[1], q[2]);
  }
}
void half_kick(const World3 &, const Fields &f, const GP &p, double k, double u[3]) {
  double E[3];
  e_at(f, p, E);
  for (int a = 0; a < 3; a++) u[a] = p.u[a] + k * E[a];
}
void boris(const World3 &, const Fields &f, const GP &p, double k, double, double u[3]) {
  double E[3], B[3];
  e_at(f, p, E);
  b_at(f, p, B);
  double um[3];
  for (int a = 0; a < 3; a++) um[a] = p.u[a] + k * E[a];
  double g = sqrt(1 + um[0] * um[0] + um[1] * um[1] + um[2] * um[2]), b2 = B[0] * B[0] + B[1] * B[1] + B[2] * B[2], b = sqrt(b2);
  double th = k * b / g,
         t = (b > 0 ? th / b : 0) * (1 + th * th / 3 + 2 * th * th * th * th / 15); // tan(th)/|B| to fifth order: rotation by 2*th about B
  double s = 2 * t / (1 + t * t * b2), up[3], w[3];
  for (int a = 0; a < 3; a++) {
    int x = (a + 1) % 3, y = (a + 2) % 3;
    w[a] = um[a] + t * (um[x] * B[y] - um[y] * B[x]);
  }
  for (int a = 0; a < 3; a++) {
    int x = (a + 1) % 3, y = (a + 2) % 3;
    up[a] = um[a] + s * (w[x] * B[y] - w[y] * B[x]);
  }
  for (int a = 0; a < 3; a++) u[a] = up[a] + k * E[a];
}

Move drift(const World3 &w, const GP &p, const double u0[3], double qw, double cdt, double dt, Mesh *J) {
  Move m;
  double g = sqrt(1 + u0[0] * u0[0] + u0[1] * u0[1] + u0[2] * u0[2]);
  double d[3];
  int c[3];
  double left = 1;
  for (int a = 0; a < 3; a++) {
    m.x[a] = p.x[a];
    m.u[a] = u0[a];
    d[a] = u0[a] / g * cdt / w.h[a];
    c[a] = p.cell[a];
  }
  for (int it = 0; it < 64; it++) {
    double t = left;
    int ax = -1, sgn = 0;
    double second = 1e9;
    for (int a = 0; a < 3; a++) {
      if (d[a] == 0) continue;
      double face = d[a] > 0 ? c[a] + 1 : c[a];
      double h = (face - m.x[a]) / d[a];
      if (h < 0) h = 0;
      if (h < t) {
        second = std::min(second, t);
        t = h;
        ax = a;
        sgn = d[a] > 0 ? 1 : -1;
      } else second = std::min(second, h);
    }
    double sp = std::max(fabs(d[0]), std::max(fabs(d[1]), fabs(d[2])));
    if (ax >= 0) m.margin = std::min(m.margin, (second - t) * sp);
    else if (second < 1e8) m.margin = std::min(m.margin, (second - t) * sp);
    double seg[3], mid[3];
    for (int a = 0; a < 3; a++) {
      seg[a] = d[a] * t;
      mid[a] = m.x[a] - c[a] + 0.5 * seg[a];
    }
    if (J)
      for (int a = 0; a < 3; a++) { // time-integrated bilinear weights along the straight segment
        int b = (a + 1) % 3, e = (a + 2) % 3;
        double corr = seg[b] * seg[e] / 12, s = qw * seg[a] * w.h[a] / (dt * w.V);
        for (int x = 0; x < 2; x++)
          for (int y = 0; y < 2; y++) {
            double wt = (x ? mid[b] : 1 - mid[b]) * (y ? mid[e] : 1 - mid[e]) + (x == y ? corr : -corr);
            int q[3] = {c[0], c[1], c[2]};
            q[b] += x;
            q[e] += y;
            J[a].at(q[0], q[1], q[2]) += s * wt;
          }
      }
    for (int a = 0; a < 3; a++) m.x[a] += seg[a];
    left -= t;
    if (ax < 0) break;
    m.crossings++;
    m.x[ax] = sgn > 0 ? c[ax] + 1 : c[ax]; // exactly on the face
    bool edge = sgn > 0 ? c[ax] + 1 == w.N[ax] : c[ax] == 0;
    if (!edge) {
      c[ax] += sgn;
      continue;
    }
    int wall = w.wall[ax + (sgn > 0 ? 3 : 0)];
    if (wall == INT_MIN) {
      c[ax] = sgn > 0 ? 0 : w.N[ax] - 1;
      m.x[ax] = sgn > 0 ? 0 : w.N[ax];
    } else if (wall == -1) {
      d[ax] = -d[ax];
      m.u[ax] = -m.u[ax];
      m.bounces++;
    } else {
      m.alive = false;
      m.hit = ax + (sgn > 0 ? 3 : 0);
      m.left = left;
      for (int a = 0; a < 3; a++) m.cell[a] = c[a];
      return m;
    }
  }
  for (int a = 0; a < 3; a++) {
    double f = std::min(fabs(m.x[a] - c[a]), fabs(c[a] + 1 - m.x[a]));
    (void)f;
  }
  return m;
}

void charge_density(const World3 &w, const StepView &s, const std::vector<double> &q, Mesh &rho, double *scale) {
  int ext[3] = {w.N[0] + 1, w.N[1] + 1, w.N[2] + 1};
  rho.init(ext);
  std::fill(rho.v.begin(), rho.v.end(), 0.0);
  auto per = periodic_axes(w);
  double V = w.V;
  for (size_t r = 0; r < s.r.size(); r++) {
    auto &v = s.r[r];
    auto o = offset(w, v);
    for (size_t k = 0; k < v.sp.size(); k++)
      for (size_t i = 0; i < v.sp[k].second; i++) {
        GP g;
        if (!place(w, v, (int)r, (int)k, v.sp[k].first[i], g).empty()) continue;
        for (int b = 0; b < 8; b++) {
          double t = q[k] * g.w / V;
          int c[3];
          for (int a = 0; a < 3; a++) {
            int h = b >> a & 1;
            double x = g.x[a] - g.cell[a];
            t *= h ? x : 1 - x;
            c[a] = g.cell[a] + h;
          }
          rho.at(c[0], c[1], c[2]) += t;
        }
      }
    for (int k = 1; k <= v.n.nz + 1; k++)
      for (int j = 1; j <= v.n.ny + 1; j++)
        for (int i = 1; i <= v.n.nx + 1; i++) {
          double h = 1;
          if (i == 1 || i == v.n.nx + 1) h *= .5;
          if (j == 1 || j == v.n.ny + 1) h *= .5;
          if (k == 1 || k == v.n.nz + 1) h *= .5;
          rho.at(o[0] + i - 1, o[1] + j - 1, o[2] + k - 1) += h * v.f[v.v(i, j, k)].rhob;
        }
  }
  // opposite sides of a periodic axis are the same node
  for (int a = 0; a < 3; a++)
    if (per[a]) {
      int b = (a + 1) % 3, c = (a + 2) % 3;
      for (int y = 0; y <= w.N[b]; y++)
        for (int z = 0; z <= w.N[c]; z++) {
          int lo[3], hi[3];
          lo[a] = 0;
          hi[a] = w.N[a];
          lo[b] = hi[b] = y;
          lo[c] = hi[c] = z;
          double t = rho.at(lo[0], lo[1], lo[2]) + rho.at(hi[0], hi[1], hi[2]);
          rho.at(lo[0], lo[1], lo[2]) = rho.at(hi[0], hi[1], hi[2]) = t;
        }
    }
  if (scale) {
    *scale = 0;
    for (double x : rho.v) *scale = std::max(*scale, fabs(x));
  }
}
void gauss_residual(const World3 &w, const StepView &s, const Fields &f, const std::vector<double> &q, Mesh &res, double *scale, const int *fw) {
  double rs = 0;
  charge_density(w, s, q, res, &rs);
  auto per = periodic_axes(w);
  for (int k = 0; k <= w.N[2]; k++)
    for (int j = 0; j <= w.N[1]; j++)
      for (int i = 0; i <= w.N[0]; i++) {
        int c[3] = {i, j, k};
        double div = 0;
        bool wall = false;
        double image = 1;
        for (int a = 0; a < 3; a++) {
          int lo[3] = {i, j, k}, hi[3] = {i, j, k};
          if (c[a] == 0 || c[a] == w.N[a]) {
            if (!per[a]) {
              int t = fw ? fw[c[a] ? a + 3 : a] : -1;
              if (t != -2 && t != -3) { // holds whatever charge it needs
                wall = true;
                break;
              }
              int in[3] = {i, j, k}; // mirrored
              if (c[a]) in[a]--;
              div += (c[a] ? -2 : 2) * f.m[M_EX + a].at(in[0], in[1], in[2]) / w.h[a];
              image *= 2;
              continue;
            }
            hi[a] = 0;
            lo[a] = w.N[a] - 1;
          } else lo[a] = c[a] - 1;
          div += (f.m[M_EX + a].at(hi[0], hi[1], hi[2]) - f.m[M_EX + a].at(lo[0], lo[1], lo[2])) / w.h[a];
        }
        res.at(i, j, k) = wall ? NAN : div - image * res.at(i, j, k) / w.eps0;
      }
  if (scale) *scale = rs / w.eps0 + f.emax * 2 / std::min(w.h[0], std::min(w.h[1], w.h[2]));
}
double species_mass(const ExecOpts &o, int k) { return k == 1 ? cf(o, "mi", 25) : 1; }
// momentum at the time of the positions: half the electric kick, then half the magnetic rotation
void centred(const World3 &w, const Fields &fl, const GP &g, double k2, double un[3]) {
  double u[3], B[3], b2 = 0, u2 = 0, uu[3];
  half_kick(w, fl, g, k2, u);
  for (int x = 0; x < 3; x++) {
    double t = g.x[x] - g.cell[x];
    int z[3] = {g.cell[0], g.cell[1], g.cell[2]};
    double lo = fl.m[M_BX + x].at(z[0], z[1], z[2]);
    z[x]++;
    B[x] = (1 - t) * lo + t * fl.m[M_BX + x].at(z[0], z[1], z[2]);
    b2 += B[x] * B[x];
    u2 += u[x] * u[x];
  }
  double b = sqrt(b2), th = 0.5 * k2 * b / sqrt(1 + u2), t = (b > 0 ? th / b : 0) * (1 + th * th / 3 + 2 * th * th * th * th / 15),
         s = 2 * t / (1 + t * t * b2);
  for (int x = 0; x < 3; x++) {
    int y = (x + 1) % 3, z = (x + 2) % 3;
    uu[x] = u[x] + t * (u[y] * B[z] - u[z] * B[y]);
  }
  for (int x = 0; x < 3; x++) {
    int y = (x + 1) % 3, z = (x + 2) % 3;
    un[x] = u[x] + s * (uu[y] * B[z] - uu[z] * B[y]);
  }
}

std::vector<Mat> materials_of(const ExecOpts &o) {
  std::vector<Mat> m = {{{1, 1, 1}, {1, 1, 1}, {0, 0, 0}}};
  i64 one = ci(o, "onemat", 0);
  if (one) m[0] = {{1.5, 2, 1.25}, {1.1, 1.25, 1.5}, {one == 1 ? 0 : 0.3, 0, one == 1 ? 0 : 0.05}};
  if (ci(o, "mat", 0)) {
    double s = cf(o, "sigma", 0.3);
    m.push_back({{2, 1.5, 1.25}, {1, 1.25, 1.1}, {0, 0, 0.01}});
    m.push_back({{1.5, 1.5, 1.5}, {1.2, 1.2, 1.2}, {s, s, s}});
  }
  return m;
}
