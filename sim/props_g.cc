// Refinement of the field solver: every mesh point of every recorded step, walls included, against the double-precision
// equations - currents, both half-steps, damping, materials, boundary conditions, divergence cleaning and its reported errors.
#include "refmodel.hh"
#include <sstream>

static void worst(const char *what, double x) { sim->note(strf("probe.worst_%s_1e-%d", what, x <= 1e-9 ? 9 : x >= 1 ? 0 : (int)floor(-log10(x)))); }

static void fold(const World3 &w, Mesh &m, int kindc) { // periodic copies of one entity hold the sum
  auto per = periodic_axes(w);
  for (int a = 0; a < 3; a++)
    if (per[a] && a != kindc) {
      int b = (a + 1) % 3, e = (a + 2) % 3;
      for (int y = 0; y < m.e[b]; y++)
        for (int z = 0; z < m.e[e]; z++) {
          int lo[3], hi[3];
          lo[a] = 0;
          hi[a] = w.N[a];
          lo[b] = hi[b] = y;
          lo[e] = hi[e] = z;
          double t = m.at(lo[0], lo[1], lo[2]) + m.at(hi[0], hi[1], hi[2]);
          m.at(lo[0], lo[1], lo[2]) = m.at(hi[0], hi[1], hi[2]) = t;
        }
    }
}
// tangential B half a cell beyond a wall: on absorbing walls it has a history of its own, so it is read from the recorded states
struct WallGhost {
  int n[2] = {0, 0};
  std::vector<double> v;
  std::vector<int> mat;
  size_t at(int i, int j) const { return i + (size_t)n[0] * j; }
};
static void gather_ghosts(const World3 &w, const StepView &S, int q, int b, WallGhost &G) {
  int a = q % 3, p[2] = {(a + 1) % 3, (a + 2) % 3};
  int ext[3];
  extent(3 + b, w.N, ext);
  for (int t = 0; t < 2; t++) G.n[t] = ext[p[t]];
  G.v.assign((size_t)G.n[0] * G.n[1], NAN);
  G.mat.assign(G.v.size(), 0);
  for (auto &v : S.r) {
    auto o = offset(w, v);
    const int *n = local_n(v);
    if (q < 3 ? o[a] != 0 : o[a] + n[a] != w.N[a]) continue;
    int e[3];
    extent(3 + b, n, e);
    for (int j = 1; j <= e[p[1]]; j++)
      for (int i = 1; i <= e[p[0]]; i++) {
        int g[3];
        g[a] = q < 3 ? 0 : n[a] + 1;
        g[p[0]] = i;
        g[p[1]] = j;
        const PField &f = v.f[v.v(g[0], g[1], g[2])];
        size_t k = G.at(o[p[0]] + i - 1, o[p[1]] + j - 1);
        G.v[k] = (&f.cbx)[b];
        G.mat[k] = (&f.fmatx)[b];
      }
  }
}

struct Maxwell {
  Ctx &c;
  const ExecOpts &o;
  World3 w;
  std::vector<double> q;
  std::array<bool, 3> per;
  std::vector<Mat> mats;
  int fw[6];
  bool one_cell;
  double damp;
  i64 cde, cdb;
  int nde, ndb;
  std::vector<int> mat_e[3], mat_b[3], mat_n; // what is made of what, by global entity
  WallGhost G[6][3];
  Fields P, N;
  std::vector<GP> prev, now;
  double wj = 0, we = 0, wb = 0, wr = 0;
  std::vector<std::pair<char, double>> reported; // divergence errors the run announced, in order
  size_t nrep = 0;

  Maxwell(Ctx &c_, const ExecOpts &o_, const Exec &a) : c(c_), o(o_), w(o_), q(charges(o_)), per(periodic_axes(w)) {
    damp = cf(o, "damp", 0);
    mats = materials_of(o);
    for (int z = 0; z < 6; z++) fw[z] = field_wall(o, w, z);
    one_cell = w.N[0] == w.P[0] && w.N[1] == w.P[1] && w.N[2] == w.P[2];
    cde = ci(o, "cde", 0);
    cdb = ci(o, "cdb", 0);
    nde = (int)ci(o, "nde", 2);
    ndb = (int)ci(o, "ndb", 2);
    char kind = 0;
    std::istringstream in(a.r[0].log);
    for (std::string l; std::getline(in, l);) {
      if (l.find("Divergence cleaning electric") != std::string::npos) kind = 'E';
      if (l.find("Divergence cleaning magnetic") != std::string::npos) kind = 'B';
      size_t p = l.find("rms error = ");
      if (p != std::string::npos && kind) reported.push_back({kind, atof(l.c_str() + p + 12)});
    }
  }
  bool wallp(int axis, int pos) const { return !per[axis] && (pos == 0 || pos == w.N[axis]); }
  int wallat(int axis, int pos) const { return wallp(axis, pos) ? fw[pos ? axis + 3 : axis] : 0; }
  void ghosts(const StepView &S) {
    for (int z = 0; z < 6; z++)
      for (int b = 0; b < 3; b++)
        if (fw[z] && b != z % 3) gather_ghosts(w, S, z, b, G[z][b]);
  }
  void materials(const StepView &S) {
    for (int cc = 0; cc < 7; cc++) { // three edges, three faces, nodes
      auto &mm = cc < 3 ? mat_e[cc] : cc < 6 ? mat_b[cc - 3] : mat_n;
      int E[3];
      extent(cc < 6 ? cc : C_RHOB, w.N, E);
      mm.assign((size_t)E[0] * E[1] * E[2], 0);
      for (auto &v : S.r) {
        auto of = offset(w, v);
        int e[3];
        extent(cc < 6 ? cc : C_RHOB, local_n(v), e);
        for (int k = 1; k <= e[2]; k++)
          for (int j = 1; j <= e[1]; j++)
            for (int i = 1; i <= e[0]; i++) {
              const PField &pf = v.f[v.v(i, j, k)];
              int16_t id = cc < 3 ? (&pf.ematx)[cc] : cc < 6 ? (&pf.fmatx)[cc - 3] : pf.nmat;
              if (id < 0 || (size_t)id >= mats.size()) c.fail(strf("material %d on the mesh, %zu defined", id, mats.size()));
              mm[(of[0] + i - 1) + (size_t)E[0] * ((of[1] + j - 1) + (size_t)E[1] * (of[2] + k - 1))] = id;
            }
      }
    }
  }
  const Mat &me(int x, const int *g) const {
    const Mesh &R = N.m[M_EX + x];
    return mats[mat_e[x][g[0] + (size_t)R.e[0] * (g[1] + (size_t)R.e[1] * g[2])]];
  }
  // charge at nodes: free charge with its images behind walls, and bound charge as recorded
  void charge(const StepView &S, Mesh &rho, double &scale) {
    int ext[3] = {w.N[0] + 1, w.N[1] + 1, w.N[2] + 1};
    Mesh b;
    rho.init(ext);
    b.init(ext);
    std::fill(rho.v.begin(), rho.v.end(), 0.0);
    for (auto &p : now) {
      const GP &g = p;
      for (int n = 0; n < 8; n++) {
        double t = q[g.sp] * g.w / w.V;
        int z[3];
        for (int a = 0; a < 3; a++) {
          int h = n >> a & 1;
          double x = g.x[a] - g.cell[a];
          t *= h ? x : 1 - x;
          z[a] = g.cell[a] + h;
        }
        rho.at(z[0], z[1], z[2]) += t;
      }
    }
    fold(w, rho, -1);
    for (auto &v : S.r) {
      auto of = offset(w, v);
      for (int k = 1; k <= v.n.nz + 1; k++)
        for (int j = 1; j <= v.n.ny + 1; j++)
          for (int i = 1; i <= v.n.nx + 1; i++) b.at(of[0] + i - 1, of[1] + j - 1, of[2] + k - 1) = v.f[v.v(i, j, k)].rhob;
    }
    scale = 0;
    for (int k = 0; k < ext[2]; k++)
      for (int j = 0; j < ext[1]; j++)
        for (int i = 0; i < ext[0]; i++) {
          int g[3] = {i, j, k};
          double image = 1;
          for (int a = 0; a < 3; a++)
            if (int t = wallat(a, g[a])) image *= t == -1 ? 0 : 2;
          double &r = rho.at(i, j, k);
          scale = std::max(scale, std::max(fabs(r * image), fabs(b.at(i, j, k))));
          r = r * image + b.at(i, j, k);
        }
  }
  // divergence error of E at nodes; zero where a wall holds whatever charge it needs
  void div_e(const Mesh *E, const Mesh &rho, Mesh &err) {
    err.init(rho.e);
    for (int k = 0; k < rho.e[2]; k++)
      for (int j = 0; j < rho.e[1]; j++)
        for (int i = 0; i < rho.e[0]; i++) {
          int g[3] = {i, j, k};
          double d = 0;
          bool held = mats[mat_n[i + (size_t)rho.e[0] * (j + (size_t)rho.e[1] * k)]].conducts();
          for (int a = 0; a < 3; a++) {
            int t = wallat(a, g[a]);
            if (t == -1 || t == -4) held = true;
            if (held) break;
            if (w.flat(a)) continue;
            int lo[3] = {i, j, k}, hi[3] = {i, j, k};
            if (t) { // mirrored
              int in[3] = {i, j, k};
              if (g[a]) in[a]--;
              double en = me(a, in).eps[a] * E[a].at(in[0], in[1], in[2]);
              d += (g[a] ? -2 : 2) * en / w.h[a];
              continue;
            }
            if (g[a] == 0 || g[a] == w.N[a]) {
              hi[a] = 0;
              lo[a] = w.N[a] - 1;
            } else lo[a]--;
            d += (me(a, hi).eps[a] * E[a].at(hi[0], hi[1], hi[2]) - me(a, lo).eps[a] * E[a].at(lo[0], lo[1], lo[2])) / w.h[a];
          }
          err.at(i, j, k) = held ? 0 : d - rho.at(i, j, k) / w.eps0;
        }
  }
  double rms_e(const Mesh &err) {
    double t = 0;
    for (int k = 0; k <= w.N[2]; k++)
      for (int j = 0; j <= w.N[1]; j++)
        for (int i = 0; i <= w.N[0]; i++) {
          int g[3] = {i, j, k};
          double f = 1;
          for (int a = 0; a < 3; a++)
            if (g[a] == 0 || g[a] == w.N[a]) f *= .5;
          t += f * err.at(i, j, k) * err.at(i, j, k);
        }
    return w.eps0 * sqrt(t / ((double)w.N[0] * w.N[1] * w.N[2]));
  }
  void announced(i64 s, char kind, const char *when, double want, double scale) {
    if (nrep >= reported.size()) c.fail(strf("step %lld: cleaning did not report its errors", (long long)s));
    auto &r = reported[nrep++];
    double d = fabs(r.second - want) / std::max(scale, 1e-12);
    wr = std::max(wr, d);
    if (r.first != kind || !(d <= 2e-5 || fabs(r.second - want) <= 1e-4 * want))
      c.fail(strf("step %lld: the %s divergence error of %c was reported as %.6g; it was %.6g (scale %.3g)", (long long)s, when, r.first, r.second,
                  want, scale));
  }
  double marder() const {
    double t = 0;
    for (int a = 0; a < 3; a++)
      if (!w.flat(a)) t += 1 / (w.h[a] * w.h[a]);
    return 0.3888889 / t;
  }
  // curl of H at an electric edge, with r[] = what multiplies differences along each axis
  double curl_h(const Mesh *H, int x, int i, int j, int k, const double *r) {
    int y = (x + 1) % 3, z = (x + 2) % 3, g[3] = {i, j, k}, g0[3] = {i, j, k};
    auto bm = [&](int cc, const int *gg0) {
      int idx[3] = {gg0[0], gg0[1], gg0[2]};
      for (int t = 0; t < 3; t++) {
        int lim = H[cc].e[t];
        if (idx[t] >= 0 && idx[t] < lim) continue;
        if (per[t]) idx[t] += idx[t] < 0 ? w.N[t] : -w.N[t];
        else {
          auto &gg = G[idx[t] < 0 ? t : t + 3][cc];
          size_t n = gg.at(idx[(t + 1) % 3], idx[(t + 2) % 3]);
          return gg.v[n] / mats[gg.mat[n]].mu[cc];
        }
      }
      size_t n = idx[0] + (size_t)H[cc].e[0] * (idx[1] + (size_t)H[cc].e[1] * idx[2]);
      return H[cc].v[n] / mats[mat_b[cc][n]].mu[cc];
    };
    for (int t = 0; t < 3; t++)
      if (t != x && per[t] && g[t] == w.N[t]) g0[t] = 0;
    int gy[3] = {g0[0], g0[1], g0[2]}, gz[3] = {g0[0], g0[1], g0[2]};
    gy[y]--;
    gz[z]--;
    return r[y] * (bm(z, g0) - bm(z, gy)) - r[z] * (bm(y, g0) - bm(y, gz));
  }
  bool metal_edge(int x, const int *g) const {
    for (int a = 0; a < 3; a++)
      if (a != x && wallat(a, g[a]) == -1) return true;
    return false;
  }
  // state after initialization: curl history, bound charge
  void start(const StepView &S) {
    PMap ids;
    now.clear();
    std::string er = collect(w, S, ids, &now);
    if (!er.empty()) c.fail(std::string("step 0: ") + er);
    gather_fields(w, S, N);
    materials(S);
    ghosts(S);
    double dt = S.r[0].g.dt, r[3], es = std::max(1e-6, std::max(N.emax, N.bmax));
    for (int a = 0; a < 3; a++) r[a] = w.flat(a) ? 0 : w.cvac * dt / w.h[a];
    for (int x = 0; x < 3; x++) {
      auto &R = N.m[M_EX + x];
      for (int k = 0; k < R.e[2]; k++)
        for (int j = 0; j < R.e[1]; j++)
          for (int i = 0; i < R.e[0]; i++) {
            int g[3] = {i, j, k};
            double want = metal_edge(x, g) ? 0 : curl_h(&N.m[M_BX], x, i, j, k, r), d = fabs(want - N.m[M_TX + x].at(i, j, k)) / es;
            if (!(d <= 1e-5))
              c.fail(strf("after initialization the curl of B kept for radiation damping is %.9g for component %d at (%d,%d,%d); it should be %.9g",
                          N.m[M_TX + x].at(i, j, k), x, i, j, k, want));
          }
    }
    Mesh rho, err;
    double rs;
    charge(S, rho, rs);
    div_e(&N.m[M_EX], rho, err);
    double sc = rs / w.eps0 + 2 * N.emax * 2 / std::min(w.h[0], std::min(w.h[1], w.h[2]));
    for (size_t n = 0; n < err.v.size(); n++)
      if (!(fabs(err.v[n]) <= 1e-5 * std::max(sc, 1e-6)))
        c.fail(strf("after initialization the bound charge does not balance the electric field: Gauss error %.6g at node %zu (scale %.3g)", err.v[n],
                    n, sc));
    P = N;
    prev.swap(now);
  }
  // verify: this step obeys the equations (off where the deck itself interfered with the fields)
  void step(const StepView &S, i64 s, bool verify, bool currents) {
    double dt = S.r[0].g.dt, cdt = w.cvac * dt;
    PMap ids;
    now.clear();
    std::string er = collect(w, S, ids, &now);
    if (!er.empty()) c.fail(strf("step %lld: ", (long long)s) + er);
    gather_fields(w, S, N);
    if (currents && verify) check_currents(s, dt, cdt);
    bool ce = cde > 0 && (s - 1) % cde == 0, cb = cdb > 0 && (s - 1) % cdb == 0;
    if (verify) check_fields(S, s, dt, cdt, ce, cb);
    else nrep += (ce ? (nde > 1 ? 2 : nde) : 0) + (cb ? (ndb > 1 ? 2 : ndb) : 0);
    ghosts(S);
    P = N;
    prev.swap(now);
  }
  void check_currents(i64 s, double dt, double cdt) {
    Mesh J[3];
    for (int x = 0; x < 3; x++) {
      int E[3];
      extent(x, w.N, E);
      J[x].init(E);
      std::fill(J[x].v.begin(), J[x].v.end(), 0.0);
    }
    for (auto &p : prev) {
      int sp = p.sp;
      if (q[sp] == 0) continue;
      double u[3];
      boris(w, P, p, q[sp] * dt / (2 * species_mass(o, sp) * w.cvac), dt, u);
      drift(w, p, u, q[sp] * p.w, cdt, dt, J);
    }
    double js = 1e-9;
    for (int x = 0; x < 3; x++) {
      fold(w, J[x], x);
      for (double z : J[x].v) js = std::max(js, fabs(z));
    }
    js = std::max(js, N.jmax * 0.1);
    for (int x = 0; x < 3; x++)
      for (int k = 0; k < J[x].e[2]; k++)
        for (int j = 0; j < J[x].e[1]; j++)
          for (int i = 0; i < J[x].e[0]; i++) {
            int g[3] = {i, j, k};
            double image = 1; // what the image charges behind a wall add or take
            for (int z = 0; z < 3; z++)
              if (int t = z != x ? wallat(z, g[z]) : 0) image *= t == -1 ? 0 : 2;
            double want = image * J[x].at(i, j, k), d = fabs(want - N.m[M_JX + x].at(i, j, k)) / js / std::max(1., image);
            wj = std::max(wj, d);
            if (!(d <= 1e-4))
              c.fail(strf("step %lld: current component %d at (%d,%d,%d) is %.9g; the particle motion gives %.9g (scale %.3g)", (long long)s, x, i, j,
                          k, N.m[M_JX + x].at(i, j, k), want, js));
          }
  }
  void check_fields(const StepView &S, i64 s, double dt, double cdt, bool ce, bool cb) {
    // magnetic half step from the old E, electric step from the half-step B, cleaning, magnetic half step from the new E
    Mesh H[3], E[3];
    double es = std::max(1e-6, std::max(N.emax, std::max(P.emax, std::max(N.bmax, P.bmax)))),
           h[3] = {0.5 * cdt / w.h[0], 0.5 * cdt / w.h[1], 0.5 * cdt / w.h[2]};
    auto half_b = [&](const Mesh *F) {
      for (int x = 0; x < 3; x++) {
        int y = (x + 1) % 3, z = (x + 2) % 3;
        for (int k = 0; k < H[x].e[2]; k++)
          for (int j = 0; j < H[x].e[1]; j++)
            for (int i = 0; i < H[x].e[0]; i++) {
              int g[3] = {i, j, k}, gy[3] = {i, j, k}, gz[3] = {i, j, k};
              gy[y]++;
              gz[z]++;
              double curl = h[y] * (F[z].at(gy[0], gy[1], gy[2]) - F[z].at(i, j, k)) - h[z] * (F[y].at(gz[0], gz[1], gz[2]) - F[y].at(i, j, k));
              double &b = H[x].at(i, j, k);
              b = wallat(x, g[x]) == -2 ? 0 : b - curl; // no magnetic field through a symmetry plane
            }
      }
    };
    for (int x = 0; x < 3; x++) H[x] = P.m[M_BX + x];
    half_b(&P.m[M_EX]);
    for (int q = 0; q < 6; q++) { // the half cell behind each wall
      if (!fw[q]) continue;
      int a = q % 3;
      for (int b = 0; b < 3; b++) {
        if (b == a) continue;
        int p[2] = {(a + 1) % 3, (a + 2) % 3}, third = 3 - a - b;
        auto &gg = G[q][b];
        for (int j = 0; j < gg.n[1]; j++)
          for (int i = 0; i < gg.n[0]; i++) {
            int in[3];
            in[p[0]] = i;
            in[p[1]] = j;
            in[a] = q < 3 ? 0 : w.N[a] - 1; // the cell inside
            double inner = H[b].at(in[0], in[1], in[2]), &out = gg.v[gg.at(i, j)];
            if (fw[q] == -1) out = inner;
            else if (fw[q] != -4) out = -inner;
            else { // outgoing waves obey a one-way equation (15 degree annihilation cone, or a Mur condition in a single cell)
              double cd = 2 * h[a] * (one_cell ? 1. : 1.03527618), decay = (1 - cd) / (1 + cd), drive = 2 * cd / (1 + cd);
              int above[3] = {in[0], in[1], in[2]}, up[3] = {in[0], in[1], in[2]};
              above[a]++;
              up[third]++;
              double dn = 2 * h[a] * (P.m[M_EX + third].at(above[0], above[1], above[2]) - P.m[M_EX + third].at(in[0], in[1], in[2])),
                     dt2 = 2 * h[third] * (P.m[M_EX + a].at(up[0], up[1], up[2]) - P.m[M_EX + a].at(in[0], in[1], in[2])),
                     sg = b == (a + 1) % 3 ? 1 : -1;
              out = decay * out + drive * inner - sg * dn + sg * dt2;
            }
          }
      }
    }
    double r[3];
    for (int a = 0; a < 3; a++) r[a] = w.flat(a) ? 0 : cdt * (1 + damp) / w.h[a];
    for (int x = 0; x < 3; x++) {
      E[x] = P.m[M_EX + x];
      for (int k = 0; k < E[x].e[2]; k++)
        for (int j = 0; j < E[x].e[1]; j++)
          for (int i = 0; i < E[x].e[0]; i++) {
            int g[3] = {i, j, k};
            double tca = curl_h(H, x, i, j, k, r) - damp * P.m[M_TX + x].at(i, j, k), &e = E[x].at(i, j, k);
            const Mat &m = me(x, g);
            double al = m.sig[x] * dt / (m.eps[x] * w.eps0), decay = exp(-al), drive = (al > 0 ? -expm1(-al) / al : 1) / m.eps[x];
            e = decay * e + drive * (tca - dt / w.eps0 * N.m[M_JX + x].at(i, j, k));
            if (metal_edge(x, g)) e = tca = 0;
            double d = fabs(tca - N.m[M_TX + x].at(i, j, k)) / es;
            if (!(d <= 1e-5))
              c.fail(strf("step %lld: the curl of B kept for radiation damping is %.9g for component %d at (%d,%d,%d); it should be %.9g",
                          (long long)s, N.m[M_TX + x].at(i, j, k), x, i, j, k, tca));
          }
    }
    half_b(E);
    double hm = std::min(w.h[0], std::min(w.h[1], w.h[2])), tole = 1e-5, tolb = 1e-5;
    if (ce) {
      Mesh rho, err;
      double rs, al = marder();
      charge(S, rho, rs);
      double sc = rs / w.eps0 + 2 * es * 2 / hm;
      tole *= 1 + nde + 0.2 * rs / w.eps0 * hm / es;
      for (int n = 0; n < nde; n++) {
        div_e(E, rho, err);
        if (n == 0 || n == nde - 1) announced(s, 'E', n ? "remaining" : "initial", rms_e(err), w.eps0 * sc);
        for (int x = 0; x < 3; x++) {
          if (w.flat(x)) continue;
          for (int k = 0; k < E[x].e[2]; k++)
            for (int j = 0; j < E[x].e[1]; j++)
              for (int i = 0; i < E[x].e[0]; i++) {
                int g[3] = {i, j, k}, g1[3] = {i, j, k};
                g1[x]++;
                const Mat &m = me(x, g);
                double a1 = m.sig[x] * dt / (m.eps[x] * w.eps0), drive = (a1 > 0 ? -expm1(-a1) / a1 : 1) / m.eps[x];
                if (!metal_edge(x, g)) E[x].at(i, j, k) += drive * al / w.h[x] * (err.at(g1[0], g1[1], g1[2]) - err.at(i, j, k));
              }
        }
      }
      sim->note("probe.clean_e_recomputed");
    }
    if (cb) {
      double al = marder();
      tolb *= 1 + ndb;
      for (int n = 0; n < ndb; n++) {
        Mesh err;
        err.init(w.N);
        double t = 0;
        for (int k = 0; k < w.N[2]; k++)
          for (int j = 0; j < w.N[1]; j++)
            for (int i = 0; i < w.N[0]; i++) {
              double d = 0;
              for (int a = 0; a < 3; a++) {
                int g[3] = {i, j, k};
                g[a]++;
                if (!w.flat(a)) d += (H[a].at(g[0], g[1], g[2]) - H[a].at(i, j, k)) / w.h[a];
              }
              err.at(i, j, k) = d;
              t += d * d;
            }
        if (n == 0 || n == ndb - 1)
          announced(s, 'B', n ? "remaining" : "initial", w.eps0 * sqrt(t / ((double)w.N[0] * w.N[1] * w.N[2])), w.eps0 * 2 * es / hm);
        for (int x = 0; x < 3; x++) {
          if (w.flat(x)) continue;
          for (int k = 0; k < H[x].e[2]; k++)
            for (int j = 0; j < H[x].e[1]; j++)
              for (int i = 0; i < H[x].e[0]; i++) {
                int up[3] = {i, j, k}, dn[3] = {i, j, k}, t2 = wallat(x, up[x]);
                dn[x]--;
                double d;
                if (t2) {
                  double in = up[x] ? err.at(dn[0], dn[1], dn[2]) : err.at(i, j, k);
                  d = (up[x] ? -1 : 1) * in * (t2 == -1 ? 0 : t2 == -4 ? 1 : 2); // what lies behind: the same, nothing, or the opposite
                } else {
                  if (up[x] == w.N[x]) up[x] = 0;
                  if (dn[x] < 0) dn[x] = w.N[x] - 1;
                  d = err.at(up[0], up[1], up[2]) - err.at(dn[0], dn[1], dn[2]);
                }
                if (t2 != -2) H[x].at(i, j, k) += al / w.h[x] * d;
              }
        }
      }
      sim->note("probe.clean_b_recomputed");
    }
    for (int x = 0; x < 3; x++)
      for (int kind = 0; kind < 2; kind++) {
        const Mesh &want = kind ? H[x] : E[x], &got = N.m[(kind ? M_BX : M_EX) + x];
        for (int k = 0; k < want.e[2]; k++)
          for (int j = 0; j < want.e[1]; j++)
            for (int i = 0; i < want.e[0]; i++) {
              double d = fabs(want.at(i, j, k) - got.at(i, j, k)) / es;
              (kind ? wb : we) = std::max(kind ? wb : we, d);
              if (!(d <= (kind ? tolb : tole)))
                c.fail(strf("step %lld: %s component %d at (%d,%d,%d) is %.9g; %s law%s gives %.9g (scale %.3g)", (long long)s,
                            kind ? "magnetic" : "electric", x, i, j, k, got.at(i, j, k), kind ? "Faraday's" : "Ampere's",
                            (kind ? cb : ce) ? " and cleaning" : "", want.at(i, j, k), es));
            }
      }
  }
  void done() {
    if (nrep != reported.size()) c.fail(strf("%zu divergence errors were announced, %zu expected", reported.size(), nrep));
    worst("e", we);
    worst("b", wb);
    if (nrep) worst("announced", wr);
  }
};

// ------------------------------------------------------------------ C09 divergence
static double div_b(const World3 &w, const Fields &f, double *rms) {
  double m = 0, t = 0, hm = std::min(w.h[0], std::min(w.h[1], w.h[2])); // in units of field per (shortest) cell
  for (int k = 0; k < w.N[2]; k++)
    for (int j = 0; j < w.N[1]; j++)
      for (int i = 0; i < w.N[0]; i++) {
        double d = (f.m[M_BX].at(i + 1, j, k) - f.m[M_BX].at(i, j, k)) * hm / w.h[0] +
                   (f.m[M_BY].at(i, j + 1, k) - f.m[M_BY].at(i, j, k)) * hm / w.h[1] +
                   (f.m[M_BZ].at(i, j, k + 1) - f.m[M_BZ].at(i, j, k)) * hm / w.h[2];
        if (std::isnan(d)) return INFINITY;
        m = std::max(m, fabs(d));
        t += d * d;
      }
  if (rms) *rms = sqrt(t / (w.N[0] * w.N[1] * w.N[2]));
  return m;
}
PROPERTY(C09,
         "distinct (workload, schedule) pairs in which div B stayed at rounding level, or in which injected divergence errors in B and E were "
         "reduced by cleaning",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.rec = 2;
  f.maxtpp = 3;
  f.maxsteps = 12;
  f.minsteps = 4;
  bool kick = c.B("kick", 0.5);
  const bool walls = kick && c.B("kickwalls", 0.4); // with walls or materials every cleaned mesh point is recomputed instead
  f.bc = kick && !walls ? 1 : 7;
  if (kick && !walls) {
    f.mat = false;
    f.current = false;
  }
  ExecOpts o = work(c, f);
  int ks = 1;
  if (kick) {
    seti(o, "kick", ks);
    setd(o, "kick_e", c.D("kick_e", {0.2, 1.0}));
    setd(o, "kick_b", c.D("kick_b", {0.2, 1.0}));
    seti(o, "cdb", c.I("kcdb", 0, 2));
    seti(o, "cde", c.I("kcde", 0, 2));
    if (!walls) o.cfg.erase("damp");
  }
  if (!kick)
    for (int z = 0; z < 6; z++) { // a symmetry plane lets no field through: the deck's field, which goes through, would not start divergence-free
      std::string k = strf("wall%d", z);
      if (i64 m = ci(o, k.c_str(), 0)) seti(o, k.c_str(), m & 128 ? (m & ~128) | 64 : m);
    }
  const bool antenna = cf(o, "eant", 0) != 0; // rewrites a plane of E in every step
  if (ci(o, "cbc", 0) && !ci(o, "cbc_wall", 0)) seti(o, "cbc", 0);
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  World3 w(o);
  auto q = charges(o);
  Maxwell eq(c, o, a);
  Fields fl;
  Mesh res;
  double prevb = 0, preve = 0, wb = 0;
  i64 cdb = ci(o, "cdb", 0), cde = ci(o, "cde", 0);
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    if (s == 0) eq.start(S);
    else eq.step(S, s, !antenna && !(kick && s == ks + 1), false);
    if (walls) continue;
    gather_fields(w, S, fl);
    double rms, m = div_b(w, fl, &rms), sc = std::max(1e-3, fl.bmax);
    if (!kick) {
      double d = m / sc;
      wb = std::max(wb, d);
      if (!(d <= 5e-6 * (s + 4))) c.fail(strf("step %lld: div B reaches %.3g of the field strength per cell", (long long)s, d));
      continue;
    }
    double rs, re = 0;
    gauss_residual(w, S, fl, q, res, &rs);
    for (double x : res.v) re += x * x;
    re = sqrt(re / res.v.size());
    if (s > ks + 1) { // step ks injected the errors; each later step may only keep or reduce them
      bool cb = cdb && (s - 1) % cdb == 0, ce = cde && (s - 1) % cde == 0;
      double nb = 3e-5 * sc, ne = 3e-5 * rs;
      if (!(rms <= prevb * (cb ? 1 : 1.0001) + nb)) c.fail(strf("step %lld: rms div B grew from %.6g to %.6g", (long long)s, prevb, rms));
      if (!(re <= preve * (ce ? 1 : 1.0001) + ne)) c.fail(strf("step %lld: rms Gauss error grew from %.6g to %.6g", (long long)s, preve, re));
      if (cb && prevb > 100 * nb && !(rms <= 0.9995 * prevb))
        c.fail(strf("step %lld: cleaning left the rms div B error at %.6g (it was %.6g)", (long long)s, rms, prevb));
      if (ce && preve > 100 * ne && !(re <= 0.9995 * preve))
        c.fail(strf("step %lld: cleaning left the rms Gauss error at %.6g (it was %.6g)", (long long)s, re, preve));
      if (cb) sim->note("probe.clean_b");
      if (ce) sim->note("probe.clean_e");
      if (!cb && prevb > 100 * nb && !(rms >= 0.99 * prevb)) sim->note("probe.b_error_moved");
    }
    prevb = rms;
    preve = re;
  }
  if (!kick) worst("divb", wb);
  eq.done();
  c.nontrivial(a.hash);
}

// ------------------------------------------------------------------ C29 fields and currents
PROPERTY(C29, "distinct (workload, schedule) pairs in which currents and both field half-steps of every step were recomputed in double precision",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.rec = 2;
  f.maxtpp = 3;
  f.maxsteps = 6;
  f.bc = 7;
  f.rng = false;
  f.heavy = true;
  f.inj = false;
  ExecOpts o = work(c, f);
  o.cfg.erase("eant");
  if (ci(o, "cbc", 0) && !ci(o, "cbc_wall", 0)) seti(o, "cbc", 0);
  if (c.B("damp0", 0.2)) setd(o, "damp", 0.02);
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  if (overflowed(a)) c.discard("announced overflow");
  Maxwell m(c, o, a);
  for (i64 s = 0; s <= m.w.nsteps; s++) {
    StepView S = need(c, a, s, m.w);
    if (s == 0) m.start(S);
    else m.step(S, s, true, cf(o, "jant", 0) == 0);
  }
  m.done();
  worst("current", m.wj);
  c.nontrivial(a.hash);
}
