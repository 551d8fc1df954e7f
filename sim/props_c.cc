// Properties decided against the equations: charge, divergence, shared copies, energies, collisions, and
// refinement of every recorded step against the double-precision reference in refmodel.cc.
#include "refmodel.hh"

static void worst(const char *what, double x) { sim->note(strf("probe.worst_%s_1e-%d", what, x <= 1e-9 ? 9 : x >= 1 ? 0 : (int)floor(-log10(x)))); }

// ------------------------------------------------------------------ C07 charge
PROPERTY(C07,
         "distinct (workload, schedule) pairs in which the total charge was conserved at every step and, without cleaning, the local Gauss residual "
         "stayed put",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.hole = true;
  f.rec = 2;
  f.maxtpp = 3;
  f.maxsteps = 8;
  f.bc = 7;
  ExecOpts o = work(c, f);
  bool local = c.B("local", 0.6);
  if (local) {
    for (auto k : {"cde", "mat", "onemat", "jant", "eant"}) o.cfg.erase(k);
    o.cfg.erase("damp");
  } else if (ci(o, "bc", 0) || ci(o, "mat", 0) || ci(o, "onemat", 0)) seti(o, "cde", 0); // cleaning clears the charge held by conducting walls
  if (c.B("fewrounds", 0.25)) seti(o, "rounds", c.I("rounds12", 1, 2));                  // particles dropped in flight leave their charge behind
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  bool over = overflowed(a);
  World3 w(o);
  auto q = charges(o);
  double sc0 = 0, t0 = 0;
  Mesh base, res;
  Fields fl;
  double wg = 0, wt = 0;
  int fw[6];
  for (int z = 0; z < 6; z++) fw[z] = field_wall(o, w, z);
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    double sc, t = total_charge(w, S, q, &sc);
    if (s == 0) {
      t0 = t;
      sc0 = sc;
    }
    sc0 = std::max(sc0, sc);
    double rel = fabs(t - t0) / std::max(sc0, 1e-9);
    wt = std::max(wt, rel);
    if (!(rel <= 2e-5))
      c.fail(strf("step %lld: the total charge (particles and bound) is %.9g; it was %.9g at the start (scale %.3g)", (long long)s, t, t0, sc0));
    if (local) {
      gather_fields(w, S, fl);
      double rs = 0;
      gauss_residual(w, S, fl, q, res, &rs, fw);
      if (s == 0) base = res;
      else
        for (int k = 0; k <= w.N[2]; k++)
          for (int j = 0; j <= w.N[1]; j++)
            for (int i = 0; i <= w.N[0]; i++) {
              double x = res.at(i, j, k), y = base.at(i, j, k);
              if (std::isnan(x) && std::isnan(y)) continue;
              double d = fabs(x - y) / std::max(rs, 1e-6);
              if (d > wg) wg = d;
              if (!(d <= 2e-5 * (s + 1)))
                c.fail(strf("step %lld: at node (%d,%d,%d) div E minus charge density is %.9g; it was %.9g at the start (scale %.3g)", (long long)s,
                            i, j, k, x, y, rs));
            }
    }
    if (over) { sim->note("probe.announced_overflow"); }
  }
  worst("charge", wt);
  if (local) worst("gauss", wg);
  c.nontrivial(a.hash);
}

// ------------------------------------------------------------------ C08 shared copies
// walks every pair of copies of one mesh entity (across ranks and across periodic faces)
static std::string shared_copies(const World3 &w, const StepView &s, double tol, double *wst, size_t *pairs) {
  auto per = periodic_axes(w);
  Fields F;
  gather_fields(w, s, F);
  for (int cc : {C_EX, C_EY, C_EZ, C_BX, C_BY, C_BZ}) {
    int E[3];
    extent(cc, w.N, E);
    std::vector<float> ref((size_t)E[0] * E[1] * E[2], NAN);
    std::vector<int> who(ref.size(), -1);
    double scale = std::max(1e-6, cc < 3 ? F.emax : F.bmax);
    for (size_t r = 0; r < s.r.size(); r++) {
      auto &v = s.r[r];
      auto o = offset(w, v);
      int e[3];
      extent(cc, local_n(v), e);
      for (int k = 1; k <= e[2]; k++)
        for (int j = 1; j <= e[1]; j++)
          for (int i = 1; i <= e[0]; i++) {
            int g[3] = {o[0] + i - 1, o[1] + j - 1, o[2] + k - 1};
            for (int a = 0; a < 3; a++)
              if (per[a] && g[a] == w.N[a]) g[a] = 0;
            size_t n = g[0] + (size_t)E[0] * (g[1] + (size_t)E[1] * g[2]);
            float x = comp(v.f[v.v(i, j, k)], cc);
            if (who[n] < 0) {
              who[n] = (int)r;
              ref[n] = x;
              continue;
            }
            (*pairs)++;
            double d = fabs((double)x - ref[n]) / scale;
            if (d > *wst) *wst = d;
            if (!(d <= tol))
              return strf("field component %d at mesh point (%d,%d,%d) is %.9g on rank %d and %.9g on rank %zu (scale %.3g)", cc, g[0], g[1], g[2],
                          ref[n], who[n], x, r, scale);
          }
    }
  }
  return "";
}
PROPERTY(C08, "distinct (workload, schedule) pairs in which all copies of every shared electric and magnetic component agreed at every step", "ref",
         "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.rec = 2;
  f.maxtpp = 3;
  f.maxsteps = c.tier ? 40 : 16;
  f.bc = 7;
  ExecOpts o = work(c, f);
  if (c.B("nosync", 0.5)) {
    for (auto k : {"sync", "cde", "cdb"}) seti(o, k, 0);
  }
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  World3 w(o);
  double wst = 0;
  size_t pairs = 0;
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    // copies advance independently and may drift apart by rounding until shared faces are synchronised
    i64 sy = ci(o, "sync", 0);
    bool synced = s > 0 && sy > 0 && (s - 1) % sy == 0;
    std::string e = shared_copies(w, S, synced ? 0 : 2e-6 + 3e-7 * s, &wst, &pairs);
    if (!e.empty() && synced) e += " although shared faces were synchronised in this step";
    if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
  }
  worst("shared", wst);
  sim->note("probe.shared_pairs", pairs);
  c.nontrivial(a.hash);
}

// ------------------------------------------------------------------ C28 motion
PROPERTY(C28, "distinct (workload, schedule) pairs in which every particle's every step was recomputed in double precision from the recorded fields",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.rec = 2;
  f.maxtpp = 3;
  f.maxsteps = 8;
  f.bc = 7;
  f.rng = false;
  f.heavy = true;
  ExecOpts o = work(c, f);
  seti(o, "recload", 1);
  if (ci(o, "cbc", 0) && !ci(o, "cbc_wall", 0)) seti(o, "cbc", 0);
  if (c.B("hot", 0.3)) {
    setd(o, "drx", 3);
    setd(o, "dry", -3);
    setd(o, "drz", 3);
  }
  if (c.B("strong", 0.3)) setd(o, "b0", 0.5);
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  if (overflowed(a)) c.discard("announced overflow");
  World3 w(o);
  auto q = charges(o);
  Fields fl;
  PMap prev, now;
  auto per = periodic_axes(w);
  double wu = 0, wx = 0;
  size_t n = 0;
  double dt = 0;
  auto k2 = [&](int sp) { return q[sp] * dt / (2 * species_mass(o, sp) * w.cvac); };
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    std::string e = collect(w, S, now);
    if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
    dt = S.r[0].g.dt;
    if (s == 0) { // loading: requested positions, momenta put back by half a step
      gather_fields(w, S, fl);
      const std::string *L = a.rec(0, "load");
      size_t m = L ? L->size() / 64 : 0;
      const double *l = L ? (const double *)L->data() : nullptr;
      if (m != now.size()) c.fail(strf("%zu particles put in, %zu present after loading", m, now.size()));
      for (size_t i = 0; i < m; i++, l += 8) {
        float wf = (float)l[1];
        u32 b;
        memcpy(&b, &wf, 4);
        auto it = now.find({(int)l[0], b});
        if (it == now.end())
          c.fail(strf("a particle of species %d put in at (%.6g,%.6g,%.6g) with weight %.9g is not there", (int)l[0], l[2], l[3], l[4], l[1]));
        GP want;
        for (int x = 0; x < 3; x++) want.x[x] = (l[2 + x] - w.org[x]) / w.h[x];
        for (int x = 0; x < 3; x++)
          if (fabs(image_dist(w, per, want, it->second, x)) > 3e-6 * (1 + w.N[x]))
            c.fail(strf("a particle of species %d put in at %.9g along axis %d sits at %.9g (cells)", (int)l[0], want.x[x], x, it->second.x[x]));
        // un-centred momentum: half a rotation and half a kick forward must give what was asked for
        double k = k2((int)l[0]), um[3];
        half_kick(w, fl, it->second, k, um);
        GP mid = it->second;
        Fields &F = fl;
        double u[3];
        {
          GP z = mid;
          for (int x = 0; x < 3; x++) z.u[x] = um[x]; // half rotation = rotation by half the angle without kicks
          double B[3];
          for (int x = 0; x < 3; x++) {
            double t = z.x[x] - z.cell[x];
            int g[3] = {z.cell[0], z.cell[1], z.cell[2]};
            double lo = F.m[M_BX + x].at(g[0], g[1], g[2]);
            g[x]++;
            B[x] = (1 - t) * lo + t * F.m[M_BX + x].at(g[0], g[1], g[2]);
          }
          double gm = sqrt(1 + um[0] * um[0] + um[1] * um[1] + um[2] * um[2]), b2 = B[0] * B[0] + B[1] * B[1] + B[2] * B[2], bb = sqrt(b2),
                 th = 0.5 * k * bb / gm, t = (bb > 0 ? th / bb : 0) * (1 + th * th / 3 + 2 * th * th * th * th / 15), ss = 2 * t / (1 + t * t * b2),
                 v[3];
          for (int x = 0; x < 3; x++) {
            int y = (x + 1) % 3, y2 = (x + 2) % 3;
            v[x] = um[x] + t * (um[y] * B[y2] - um[y2] * B[y]);
          }
          for (int x = 0; x < 3; x++) {
            int y = (x + 1) % 3, y2 = (x + 2) % 3;
            u[x] = um[x] + ss * (v[y] * B[y2] - v[y2] * B[y]);
          }
        }
        double g = 1;
        for (int x = 0; x < 3; x++) g += fabs(l[5 + x]);
        for (int x = 0; x < 3; x++)
          if (!(fabs(u[x] - l[5 + x]) / g <= 2e-5))
            c.fail(strf("a particle of species %d was put in with momentum %.9g along axis %d; the loaded state corresponds to %.9g", (int)l[0],
                        l[5 + x], x, u[x]));
      }
      prev.swap(now);
      continue;
    }
    for (auto &p : prev) {
      double u[3];
      boris(w, fl, p.second, k2(p.first.first), dt, u);
      Move m = drift(w, p.second, u, 0, w.cvac * dt, dt, nullptr);
      n++;
      auto it = now.find(p.first);
      auto near_wall = [&](const double *x) {
        for (int z = 0; z < 3; z++)
          for (int h = 0; h < 2; h++)
            if (w.wall[z + 3 * h] != INT_MIN && fabs(x[z] - (h ? w.N[z] : 0)) < 2e-5 * (1 + w.N[z])) return true;
        return false;
      };
      if (it == now.end()) {
        if (m.alive && !near_wall(m.x))
          c.fail(strf("step %lld: the particle of species %d with weight %.9g should have moved to (%.7g,%.7g,%.7g); it is gone", (long long)s,
                      p.first.first, p.second.w, m.x[0], m.x[1], m.x[2]));
        continue;
      }
      if (!m.alive) {
        if (!near_wall(it->second.x))
          c.fail(strf("step %lld: the particle of species %d with weight %.9g crossed an absorbing wall and is still there at (%.7g,%.7g,%.7g)",
                      (long long)s, p.first.first, p.second.w, it->second.x[0], it->second.x[1], it->second.x[2]));
        continue;
      }
      double g = 1;
      for (int x = 0; x < 3; x++) g += fabs(u[x]);
      GP at;
      for (int x = 0; x < 3; x++) at.x[x] = m.x[x];
      for (int x = 0; x < 3; x++) {
        double dx = fabs(image_dist(w, per, at, it->second, x)), du = fabs(m.u[x] - it->second.u[x]) / g;
        if (du > 2e-5 && fabs(m.u[x] + it->second.u[x]) / g < 2e-5 && near_wall(it->second.x)) du = 0;
        wx = std::max(wx, dx);
        wu = std::max(wu, du);
        if (!(du <= 2e-5))
          c.fail(strf("step %lld: momentum of the particle of species %d with weight %.9g along axis %d is %.9g; the equations of motion give %.9g",
                      (long long)s, p.first.first, p.second.w, x, it->second.u[x], m.u[x]));
        if (!(dx <= 2e-5))
          c.fail(strf("step %lld: the particle of species %d with weight %.9g is at %.9g along axis %d; the equations of motion give %.9g (cells)",
                      (long long)s, p.first.first, p.second.w, it->second.x[x], x, m.x[x]));
      }
    }
    gather_fields(w, S, fl);
    prev.swap(now);
  }
  worst("momentum", wu);
  worst("position", wx);
  sim->note("probe.particle_steps", n);
  c.nontrivial(a.hash);
}
