// Properties about sources, sinks, collisions and diagnostics.
#include "refmodel.hh"

static void worst(const char *what, double x) { sim->note(strf("probe.worst_%s_1e-%d", what, x <= 1e-9 ? 9 : x >= 1 ? 0 : (int)floor(-log10(x)))); }
static bool rec_all(const Exec &x, const std::string &key, std::vector<const double *> &out) {
  out.clear();
  for (size_t r = 0; r < x.r.size(); r++) {
    auto *d = x.rec((int)r, key);
    if (!d) return false;
    out.push_back((const double *)d->data());
  }
  return true;
}

// ------------------------------------------------------------------ C24 injection
PROPERTY(C24, "distinct (workload, schedule) pairs in which every requested particle was created by exactly one process at the requested place",
         "ref", "v4sse", "v8omp", "v16p") {
  Feat f;
  f.rec = 2;
  f.maxtpp = 2;
  f.maxsteps = 6;
  f.bc = 7;
  f.rng = false;
  f.cbc = false;
  f.mat = false;
  ExecOpts o = work(c, f);
  seti(o, "inj", 1 | c.P("injk2", {2, 0, 4, 6}));
  seti(o, "ninj", c.I("ninj2", 2, 12));
  seti(o, "injsp", c.I("injsp", 0, ci(o, "nsp", 2) - 1));
  seti(o, "injwall", c.B("injwall", 0.4));
  setd(o, "injut", c.D("injut", {0.3, 3.0, 0.0}));
  setd(o, "dx", c.D("dx2", {1.0, 0.1, 0.3, 0.7}));
  setd(o, "x0", c.D("x02", {0, -0.35, 12.7}));
  setd(o, "maxnp0", 400);
  if (c.B("bare", 0.3)) seti(o, "noload", 1);
  bool few = c.B("fewmovers", 0.15); // hardly any room for particles on the move
  if (few) {
    seti(o, "injnm", c.P("injnm", {1, 2, 4}));
    seti(o, "noload", 1);
    seti(o, "inj", ci(o, "inj", 0) | 4);
    setd(o, "injut", 3.0);
    seti(o, "ninj", 12);
  }
  if (c.B("long", 0.15)) { // many cells along one axis
    const char *nn[] = {"nx", "ny", "nz"}, *pp[] = {"px", "py", "pz"};
    int ax = (int)c.I("longax", 0, 2);
    seti(o, nn[ax], ci(o, pp[ax], 1) * c.P("longn", {48, 100, 257}));
    seti(o, "noload", 1);
  }
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  World3 w(o);
  PMap prev, now;
  auto per = periodic_axes(w);
  std::vector<const double *> rs;
  size_t total = 0;
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    std::string e = collect(w, S, now);
    if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
    double cdt = w.cvac * S.r[0].g.dt;
    if (s > 0)
      for (int i = 0; i < 12; i++) {
        if (!rec_all(a, strf("inj.%lld.%d", (long long)s - 1, i), rs)) break;
        const double *v = rs[0];
        int made = 0;
        for (auto *p : rs) made += (int)p[0];
        GP g;
        bool edge = false, high = false, inside = true;
        const double tol = 1e-6 * (1 + std::max(w.N[0], std::max(w.N[1], w.N[2])) +
                                   std::max(fabs(w.org[0]) / w.h[0], std::max(fabs(w.org[1]) / w.h[1], fabs(w.org[2]) / w.h[2])));
        for (int x = 0; x < 3; x++) {
          g.x[x] = (v[2 + x] - w.org[x]) / w.h[x];
          double t = g.x[x] - w.N[x];
          if (t > tol || g.x[x] < -tol) inside = false;
          if (fabs(t) <= tol) (per[x] ? high : edge) = true;
          if (fabs(g.x[x]) <= tol) edge = true;
        }
        if (!inside) c.fail("the workload asked for a particle outside the box");
        bool exact = true, top = false;
        for (int x = 0; x < 3; x++) { // only then are the box edges themselves exact
          bool ex = w.h[x] * 8 == floor(w.h[x] * 8) && w.org[x] * 8 == floor(w.org[x] * 8);
          exact = exact && ex;
          if (ex && per[x] && v[2 + x] == w.org[x] + w.h[x] * w.N[x]) top = true;
        }
        if (made > 1)
          c.fail(strf("step %lld: injection request %d at (%.9g,%.9g,%.9g) created %d particles", (long long)s, i, v[2], v[3], v[4], made));
        if (made && top)
          c.fail(strf(
              "step %lld: injection request %d at (%.9g,%.9g,%.9g), on the far face of a periodic box, which belongs to the other side, created a "
              "particle",
              (long long)s, i, v[2], v[3], v[4]));
        if (made < 1 && !high && !(edge && !exact))
          c.fail(strf("step %lld: injection request %d at (%.9g,%.9g,%.9g) created no particle on any process", (long long)s, i, v[2], v[3], v[4]));
        if (!made) continue;
        total++;
        float wf = (float)v[8];
        u32 b;
        memcpy(&b, &wf, 4);
        int sp = (int)v[10];
        auto it = now.find({sp, b});
        for (int x = 0; x < 3; x++) {
          g.cell[x] = (int)std::min<double>(w.N[x] - 1, std::max(0.0, floor(g.x[x])));
          g.u[x] = v[5 + x];
        }
        if (few && v[9] != 0 && it != now.end()) { // when out of movers the particle keeps its place, and this is announced
          bool said = false, here = true;
          for (auto &r : a.r)
            if (r.log.find("o movers available") != std::string::npos) said = true;
          GP at;
          for (int x = 0; x < 3; x++) at.x[x] = g.x[x];
          for (int x = 0; x < 3; x++)
            if (fabs(image_dist(w, per, at, it->second, x)) > 1e-5 + 3e-7 * (fabs(w.org[x]) / w.h[x] + w.N[x]) ||
                fabs(it->second.u[x] - v[5 + x]) > 1e-5)
              here = false;
          if (said && here) {
            sim->note("probe.not_aged");
            continue;
          }
        }
        Move m;
        double u[3] = {v[5], v[6], v[7]};
        for (int x = 0; x < 3; x++) {
          m.x[x] = g.x[x];
          m.u[x] = u[x];
        }
        if (v[9] != 0) m = drift(w, g, u, 0, cdt * v[9], S.r[0].g.dt, nullptr);
        bool wallish = false;
        for (int x = 0; x < 3; x++)
          for (int h = 0; h < 2; h++)
            if (w.wall[x + 3 * h] != INT_MIN) {
              double q = h ? w.N[x] : 0;
              if (fabs(m.x[x] - q) < 1e-4 || fabs(g.x[x] - q) < 1e-4) wallish = true;
            }
        if (it == now.end()) {
          if (m.alive && !(wallish && v[9] != 0))
            c.fail(strf("step %lld: the particle injected at (%.9g,%.9g,%.9g) is nowhere at the end of the step", (long long)s, v[2], v[3], v[4]));
          continue;
        }
        if (!m.alive && !wallish)
          c.fail(strf("step %lld: the particle injected at (%.9g,%.9g,%.9g) should have left through an absorbing wall", (long long)s, v[2], v[3],
                      v[4]));
        if (!m.alive) continue;
        double gm = 1;
        for (int x = 0; x < 3; x++) gm += fabs(u[x]);
        GP at;
        for (int x = 0; x < 3; x++) at.x[x] = m.x[x];
        for (int x = 0; x < 3; x++) {
          double dx = fabs(image_dist(w, per, at, it->second, x)), du = fabs(m.u[x] - it->second.u[x]) / gm;
          if (wallish && fabs(m.u[x] + it->second.u[x]) / gm < 1e-6) du = 0;
          double cd = 1.5e-7 + (exact ? 0 : 1.5e-7 * (fabs(w.org[x]) / w.h[x] + w.N[x])) + (v[9] != 0 ? 3e-6 : 0);
          if (!(dx <= cd))
            c.fail(strf("step %lld: a particle requested at %.9g along axis %d with age %.4g is at %.9g (cells)", (long long)s, g.x[x], x, v[9],
                        it->second.x[x]));
          if (!(du <= 1e-6))
            c.fail(strf("step %lld: a particle requested with momentum %.9g along axis %d has %.9g", (long long)s, u[x], x, it->second.u[x]));
        }
      }
    prev.swap(now);
  }
  sim->note("probe.injected", total);
  c.nontrivial(a.hash);
}

// ------------------------------------------------------------------ C25 emitters and particle handlers
PROPERTY(C25, "distinct (workload, schedule) pairs in which tallies, reflux or emission were accounted particle by particle", "ref", "v4sse",
         "v8avx2", "v16p", "v8omp") {
  int mode = (int)c.I("mode", 0, 2);
  Feat f;
  f.rec = 2;
  f.maxtpp = 2;
  f.maxsteps = mode == 2 ? 2 : 8;
  f.bc = mode == 2 ? 7 : 6;
  f.emit = false;
  f.coll = false;
  f.cbc = false;
  f.walls = false;
  f.inj = mode != 2;
  ExecOpts o = work(c, f);
  if (mode < 2) {
    if (ci(o, "bc", 0) == 1) seti(o, "pbc", 1);
    seti(o, "cbc", mode + 1);
    seti(o, "cbc_wall", mode ? c.P("cw", {1, 2, 4, 8, 16, 32, 9, 18, 36, 63}) : c.P("cw", {1, 2, 4, 8, 16, 32, 41, 63, 0}));
    seti(o, "rounds", c.P("crounds", {7, 3}));
    setd(o, "ut_para", c.D("utpa", {0.3, 0.05, 2.0}));
    setd(o, "ut_perp", c.D("utpe", {0.3, 0.02, 1.5, 0.0}));
    if (c.B("drift2", 0.5)) setd(o, c.B("dr2a", 0.5) ? "dry" : "drz", c.D("dr2", {2.0, -2.0}));
    setd(o, "drx", c.D("dr", {2.0, -2.0, 0.5}));
  }
  if (mode < 2) {
    o.pol = rpol(c, "pol", o.nrank, false);
    Exec a = sim->run(o);
    must_succeed(c, a, "a run");
    if (overflowed(a) || first_full(a) < (1ll << 59)) c.discard("announced overflow");
    World3 w(o);
    PMap prev, now;
    std::vector<long long> lost(w.nsp, 0);
    Fields fl;
    auto q = charges(o);
    auto per = periodic_axes(w);
    for (i64 s = 0; s <= w.nsteps; s++) {
      StepView S = need(c, a, s, w);
      std::string e = collect(w, S, now);
      if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
      double dt = S.r[0].g.dt;
      if (s) {
        for (auto &p : prev)
          if (!now.count(p.first)) lost[p.first.first]++;
        std::map<int, long long> inj;
        if (ci(o, "inj", 0))
          for (int r = 0; r < o.nrank; r++)
            for (int i = 0; i < 16; i++) {
              auto *v = a.rec(r, strf("inj.%lld.%d", (long long)s - 1, i));
              if (v) {
                const double *d = (const double *)v->data();
                float wf = (float)d[8];
                u32 b;
                memcpy(&b, &wf, 4);
                if (d[0] != 0 && !now.count({(int)d[10], b})) lost[(int)d[10]]++;
              }
            }
        if (mode == 0) {
          std::vector<long long> t(w.nsp, 0);
          for (int r = 0; r < o.nrank; r++) {
            auto *d = a.rec(r, strf("tally.%lld", (long long)s));
            if (!d) c.fail("the tally could not be read");
            for (int k = 0; k < w.nsp; k++) t[k] += ((const int *)d->data())[k];
          }
          for (int k = 0; k < w.nsp; k++)
            if (t[k] != lost[k])
              c.fail(strf("step %lld: %lld particles of species %d have been absorbed, the tally says %lld", (long long)s, lost[k], k, t[k]));
          if (s == w.nsteps)
            for (auto z : lost) sim->note("probe.tallied", z);
        } else {
          long long n = 0;
          for (auto z : lost) n += z;
          size_t ex = announced_removals(a);
          int axes = 0;
          for (int x = 0; x < 3; x++) axes += w.wall[x] == -3 || w.wall[x + 3] == -3;
          bool enough = axes <= 1 && ci(o, "rounds", 3) >= 7; // a step then takes at most six exchanges
          if (n > (long long)ex) c.fail(strf("step %lld: %lld particles lost at a refluxing wall", (long long)s, n));
          if (n && enough) c.fail(strf("step %lld: %lld particles given up although enough exchanges were allowed", (long long)s, n));
          for (auto &p : prev) {
            int sp = p.first.first;
            double u[3];
            boris(w, fl, p.second, q[sp] * dt / (2 * species_mass(o, sp) * w.cvac), dt, u);
            Move m = drift(w, p.second, u, 0, w.cvac * dt, dt, nullptr);
            if (m.alive) continue;
            auto it = now.find(p.first);
            if (it == now.end()) continue;
            sim->note("probe.refluxed");
            int z = m.hit, x = z % 3, out = z < 3 ? 1 : -1;
            if (z < 0 || w.wall[z] != -3) c.fail("the reference lost a particle elsewhere");
            const GP &g = it->second;
            if (axes > 1) continue; // the last of several re-emissions is the only one seen
            if (m.margin < 1e-4) {
              sim->note("probe.borderline");
              continue;
            }
            // the new momentum is the recorded one, up to the reflections it may have met on the way
            const double pa = cf(o, "ut_para", .3) / (1 + sp), pe = cf(o, "ut_perp", .3) / (1 + 2 * sp);
            bool ok = false, again = false;
            double best = INFINITY;
            for (int flip = 0; flip < 8 && !ok; flip++) {
              double v[3];
              for (int b = 0; b < 3; b++) v[b] = flip >> b & 1 ? -g.u[b] : g.u[b];
              if (!(v[x] * out > 0)) continue;
              GP h;
              for (int b = 0; b < 3; b++) {
                h.x[b] = m.x[b];
                h.cell[b] = m.cell[b];
              }
              Move k = drift(w, h, v, 0, w.cvac * dt * m.left, dt, nullptr);
              if (!k.alive) again = true; // met another such wall in the same step
              if (k.margin < 1e-5) again = true;
              double dd = 0, du = 0;
              GP at;
              for (int b = 0; b < 3; b++) at.x[b] = k.x[b];
              for (int b = 0; b < 3; b++) {
                dd = std::max(dd, fabs(image_dist(w, per, at, g, b)));
                du = std::max(du, fabs(k.u[b] - g.u[b]));
              }
              if (du > 0) continue;
              best = std::min(best, dd);
              if (dd <= 2e-5 * (1 + w.N[0] + w.N[1] + w.N[2])) ok = true;
            }
            if (!ok && !again && std::isinf(best))
              c.fail(strf("step %lld: a particle re-emitted from wall %d moves into the wall (momentum %.6g)", (long long)s, z, g.u[x]));
            if (!ok && !again)
              c.fail(strf("step %lld: a particle of species %d that reached wall %d with %.4g of the step left and was re-emitted with momentum "
                          "(%.6g,%.6g,%.6g) is %.4g cells from where that takes it",
                          (long long)s, sp, z, m.left, g.u[0], g.u[1], g.u[2], best));
            if (ok) {
              sim->note("probe.reflux_followed");
              for (int b = 0; b < 3; b++) {
                double lim = (b == x ? pa * 6.0 : pe * 8.0) * 1.001 + 1e-12; // what the deviates can reach
                if (!(fabs(g.u[b]) <= lim) && axes <= 1)
                  c.fail(strf("step %lld: a particle of species %d re-emitted from wall %d has momentum %.6g along axis %d; the wall's temperatures "
                              "are %.4g (normal) and %.4g (tangential)",
                              (long long)s, sp, z, g.u[b], b, pa, pe));
              }
            }
          }
        }
      }
      gather_fields(w, S, fl);
      prev.swap(now);
    }
    c.nontrivial(a.hash);
    return;
  }
  // emission: every face of the region's surface whose field exceeds the threshold emits, each step, as many particles as asked for, carrying
  // together the Child-Langmuir charge of the field at the face, at rest to outgoing, within one step's flight of the face
  seti(o, "emit", 1);
  seti(o, "nsteps", c.I("esteps", 1, 4));
  seti(o, "emreg", c.I("emreg2", 0, 7));
  setd(o, "ethr", c.D("ethr", {0, 0.05, 0.3}));
  setd(o, "f0", c.D("f02", {0.4, 2.0}));
  setd(o, "eut", c.D("eut", {0.05, 0.5, 0.0, 2.0}));
  setd(o, "eperp", c.D("eperp", {0.05, 0.0, 0.4}));
  setd(o, "enorm", c.D("enorm", {0.6285, 2.0}));
  seti(o, "nemit", c.I("nemit2", 1, 7));
  if (c.B("etight", 0.3)) setd(o, "maxnp0", c.D("emax", {8, 40, 100}));
  else setd(o, "maxnp0", 4000);
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  World3 w(o);
  auto per = periodic_axes(w);
  auto q = charges(o);
  bool walls = false;
  for (int z = 0; z < 6; z++) walls = walls || w.wall[z] == -2 || w.wall[z] == -3;
  const i64 ne = ci(o, "nemit", 1);
  const double thr = cf(o, "ethr", 0), pa = cf(o, "eut", 0.05), pe = cf(o, "eperp", 0.05);
  Fields fl;
  std::map<u32, int> known;
  size_t total = 0, skipped = 0, unaged = 0, expected_all = 0, optional_all = 0;
  for (auto &r : a.r) {
    for (size_t p = 0; (p = r.log.find("Did not emit ", p)) != std::string::npos; p++) skipped += (size_t)atoi(r.log.c_str() + p + 13);
    for (size_t p = 0; (p = r.log.find("Did not age ", p)) != std::string::npos; p++) unaged += (size_t)atoi(r.log.c_str() + p + 12);
  }
  auto in = [&](const int *g) {
    int er = (int)ci(o, "emreg", 0);
    if (er < 3) return g[er] < 1;
    if (er < 6) return g[er - 3] >= w.N[er - 3] - 1;
    bool inner = true, outer = false;
    for (int x = 0; x < 3; x++) {
      inner = inner && g[x] >= 1 && g[x] < w.N[x] - 1;
      outer = outer || g[x] < 0 || g[x] >= w.N[x];
    }
    return er == 6 ? inner : outer;
  };
  struct Face {
    double e; // field along the outward normal times the sign of the charge
    int cell[3], axis, dir;
    bool optional;
  };
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    std::map<u32, int> now;
    std::vector<GP> fresh;
    for (size_t r = 0; r < S.r.size(); r++)
      for (size_t i = 0; i < S.r[r].sp[0].second; i++) {
        const PPart &p = S.r[r].sp[0].first[i];
        u32 bb;
        memcpy(&bb, &p.w, 4);
        GP g;
        std::string e = place(w, S.r[r], (int)r, 0, p, g);
        if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
        now[bb]++;
        if (s && !known.count(bb)) fresh.push_back(g);
      }
    size_t repeated = 0; // emitted with exactly the weight of one already present
    for (auto &n : now)
      if (known.count(n.first) && n.second > known[n.first]) repeated += n.second - known[n.first];
    if (s) {
      double dt = S.r[0].g.dt, sgn = q[0] < 0 ? -1 : 1;
      std::vector<Face> F;
      double tol = 4e-6 * std::max(1e-9, fl.emax);
      for (int k = 0; k < w.N[2]; k++)
        for (int j = 0; j < w.N[1]; j++)
          for (int i = 0; i < w.N[0]; i++) {
            int g[3] = {i, j, k};
            if (in(g)) continue;
            for (int z = 0; z < 6; z++) {
              int nb[3] = {i, j, k}, x = z % 3, y = (x + 1) % 3, v = (x + 2) % 3;
              nb[x] += z < 3 ? -1 : 1;
              if (!in(nb)) continue;
              double e = 0;
              for (int b = 0; b < 4; b++) {
                int t[3] = {i, j, k};
                t[y] += b & 1;
                t[v] += b >> 1;
                e += 0.25 * fl.m[M_EX + x].at(t[0], t[1], t[2]);
              }
              Face f;
              f.e = e * sgn * (z < 3 ? 1 : -1);
              for (int b = 0; b < 3; b++) f.cell[b] = g[b];
              f.axis = x;
              f.dir = z < 3 ? 1 : -1;
              f.optional = fabs(f.e - thr) <= tol;
              if (f.e > thr || f.optional) F.push_back(f);
            }
          }
      // assign each new particle to the faces it can have come from
      std::vector<size_t> got(F.size(), 0);
      std::sort(F.begin(), F.end(), [](const Face &a, const Face &b) { return a.e < b.e; });
      size_t all = fresh.size() + repeated;
      total += all;
      for (auto &g : fresh) {
        if (!(g.w > 0)) c.fail(strf("an emitted particle has weight %.9g", g.w));
        bool byweight = false, ok = false;
        int hot = -1;
        double gm = sqrt(1 + g.u[0] * g.u[0] + g.u[1] * g.u[1] + g.u[2] * g.u[2]);
        for (size_t i = 0; i < F.size() && !ok; i++) {
          auto &f = F[i];
          int x = f.axis, y = (x + 1) % 3, v = (x + 2) % 3;
          double norm = cf(o, "enorm", 0.6285) * w.eps0 * dt / (sqrt(fabs(q[0]) * species_mass(o, 0)) * ne) / sqrt(w.h[x]) * w.h[y] * w.h[v];
          if (fabs(pow(g.w / norm, 2. / 3) - f.e) > tol + 3e-6 * f.e) continue;
          byweight = true;
          GP at;
          for (int b = 0; b < 3; b++) at.x[b] = f.cell[b] + 0.5;
          at.x[x] = f.cell[x] + (f.dir > 0 ? 0 : 1);
          double nd = f.dir * (g.x[x] - at.x[x]), fly = w.cvac * dt / w.h[x] * fabs(g.u[x]) / gm;
          if (per[x]) nd -= w.N[x] * floor((nd + 1e-5) / w.N[x]);
          if (!(nd >= -1e-5 && nd <= fly + 1e-5 * (1 + w.N[x]))) continue;
          if (f.dir * g.u[x] < 0) continue;
          bool near = true;
          for (int b : {y, v}) {
            double d = fabs(image_dist(w, per, at, g, b));
            if (d > 0.5 + w.cvac * dt / w.h[b] * fabs(g.u[b]) / gm + 1e-5 * (1 + w.N[b])) near = false;
          }
          if (!near) continue;
          if (!(fabs(g.u[x]) <= pa * 6.0 * 1.001) || !(fabs(g.u[y]) <= pe * 8.0 + 1e-12) || !(fabs(g.u[v]) <= pe * 8.0 + 1e-12)) {
            hot = x;
            continue;
          }
          ok = true;
          got[i]++;
        }
        if (!ok && hot >= 0)
          c.fail(strf("step %lld: a particle emitted along axis %d has momentum (%.6g,%.6g,%.6g); the temperatures are %.4g (normal) and %.4g "
                      "(tangential)",
                      (long long)s, hot, g.u[0], g.u[1], g.u[2], pa, pe));
        if (!ok && !byweight)
          c.fail(strf("step %lld: a particle of weight %.9g at (%.6g,%.6g,%.6g) was emitted; no face of the surface has the field for that weight",
                      (long long)s, g.w, g.x[0], g.x[1], g.x[2]));
        if (!ok)
          c.fail(strf("step %lld: a particle of weight %.9g and momentum (%.6g,%.6g,%.6g) was emitted at (%.6g,%.6g,%.6g); the faces with the field "
                      "for that weight are out of its reach",
                      (long long)s, g.w, g.u[0], g.u[1], g.u[2], g.x[0], g.x[1], g.x[2]));
      }
      size_t must = 0, may = 0;
      for (auto &f : F) (f.optional ? may : must) += ne;
      expected_all += must;
      optional_all += may;
      if (all > must + may)
        c.fail(strf("step %lld: %zu particles were emitted; %zu faces emitting %lld each make %zu", (long long)s, all, F.size(), (long long)ne,
                    must + may));
      if (!walls && !skipped) {
        if (all < must)
          c.fail(
              strf("step %lld: %zu particles were emitted; %zu faces emitting %lld each make %zu", (long long)s, all, F.size(), (long long)ne, must));
        // faces with the same field (to rounding) are told apart by place only roughly: count them together
        for (size_t i = 0; i < F.size() && !repeated;) {
          size_t j = i, n = got[i], lo = F[i].optional ? 0 : ne, hi = ne;
          while (j + 1 < F.size() && F[j + 1].e - F[j].e <= 2 * (tol + 3e-6 * F[j].e)) {
            j++;
            n += got[j];
            lo += F[j].optional ? 0 : ne;
            hi += ne;
          }
          if (n < lo || n > hi)
            c.fail(strf("step %lld: %zu faces with normal field %.6g emitted %zu particles together, not %lld each", (long long)s, j - i + 1, F[i].e,
                        n, (long long)ne));
          i = j + 1;
        }
      }
    }
    known.swap(now);
    gather_fields(w, S, fl);
  }
  if (total) sim->note("probe.emitted", total);
  if (skipped) sim->note("probe.emission_without_room", skipped);
  if (!walls && !(total + skipped >= expected_all && total + skipped <= expected_all + optional_all))
    c.fail(strf("%zu particles were to be emitted; %zu were, and %zu were announced as not emitted", expected_all, total, skipped));
  (void)unaged;
  c.nontrivial(a.hash);
}

// ------------------------------------------------------------------ C21 collisions
PROPERTY(C21, "distinct (workload, schedule) pairs in which momentum and energy were balanced cell by cell over every collision step", "ref", "v4sse",
         "v8omp", "refts") {
  Feat f;
  f.rec = 2;
  f.maxtpp = 4;
  f.maxsteps = 6;
  f.bc = 1;
  f.rng = false;
  f.inj = false;
  f.mat = false;
  f.current = false;
  f.cleaning = false;
  f.heavy = true;
  if (has_preempt(c.lib)) {
    f.maxrank = 2;
    f.maxcell = 3;
    f.maxsteps = 3;
  }
  ExecOpts o = work(c, f);
  for (auto k : {"edgepos", "b0"}) o.cfg.erase(k);
  setd(o, "f0", 0);
  seti(o, "tags", 0);
  setd(o, "wpe2", 1e-12);
  setd(o, "cvac", 1);
  setd(o, "eps0", 1);
  int nsp = (int)ci(o, "nsp", 2);
  if (nsp < 2) {
    nsp = 2;
    seti(o, "nsp", 2);
  }
  for (auto k : {"drx", "dry", "drz"}) o.cfg.erase(k);
  setd(o, "ute", c.D("cute", {0.05, 0.3, 0.01}));
  setd(o, "uti", c.D("cuti", {0.01, 0.05}));
  if (c.B("mi1", 0.3)) setd(o, "mi", 1.0);
  i64 m = c.P("cm", {1, 2, 8, 16, 32, 3, 9, 24, 33, 4, 64, 128});
  seti(o, "coll", m);
  i64 ci_ = c.I("cint", 1, 3);
  seti(o, "cint", ci_);
  bool sat = c.B("sat", 0.4);
  setd(o, "cr", sat ? 1e9 : 4e5);
  setd(o, "cb", 1e5);
  setd(o, "cvar0", c.D("cvar", {1e9, 1e7, 1e11}));
  if (c.B("cs2", 0.3)) setd(o, "csample", 2);
  if (c.B("thin", 0.5)) setd(o, "fillfrac", c.D("thinf", {0.5, 0.1, 0.03}));
  if (c.B("emptyion", 0.05)) seti(o, "empty_ion", 1);
  const bool uneq = c.B("uneq", 0.25); // particles of two weights: the lighter of a pair always scatters, the heavier as often as balance asks
  if (uneq) {
    seti(o, "uneqw", 1);
    seti(o, "ppc", c.I("uppc", 1, 2));
    seti(o, "coll", m = c.P("ucm", {8, 16, 1, 2, 32}));
    setd(o, "fillfrac", c.D("uthin", {1.0, 0.6}));
    if (!has_preempt(c.lib)) seti(o, "nsteps", c.I("usteps", 8, 24));
    setd(o, "cvar0", c.D("ucvar", {1e11, 1e13}));
  }
  o.pol = rpol(c, "pol", o.nrank, has_preempt(c.lib));
  Exec a = sim->run(o);
  must_succeed(c, a, "a run with collisions");
  if (overflowed(a) && a.r[0].log.find("large collision") == std::string::npos) {}
  World3 w(o);
  auto per = periodic_axes(w);
  std::vector<GP> prev, now;
  PMap dummy;
  double worst_p = 0, worst_e = 0;
  size_t hits = 0;
  bool touches[4] = {(m & (1 | 2 | 4 | 8 | 16 | 32 | 64 | 128)) != 0, (m & (1 | 8 | 32)) != 0, false, false};
  bool balanced = !uneq && !(m & (4 | 64 | 128));
  const bool once = (m & (8 | 16)) || ((m & (1 | 32)) && ci(o, "csample", 1) == 1); // a lone pair meets at most once
  size_t lone = 0, heavy = 0;
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    std::string e;
    now.clear();
    e = collect(w, S, dummy, &now);
    if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
    double dt = S.r[0].g.dt;
    if (s) {
      if (now.size() != prev.size()) c.fail(strf("step %lld: %zu particles became %zu", (long long)s, prev.size(), now.size()));
      std::vector<int> from;
      e = free_flight(w, per, prev, now, dt, from);
      if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
      struct Cell {
        double p[3] = {0, 0, 0}, ps = 0, e = 0, es = 0;
        int n[4] = {0, 0, 0, 0}, changed = 0;
        std::vector<std::pair<float, double>> who; // weight and change of the particles collisions may touch
      };
      std::map<std::array<int, 3>, Cell> cells;
      for (size_t i = 0; i < now.size(); i++) {
        auto &g = now[i];
        auto &p = prev[from[i]];
        Cell &C = cells[{p.cell[0], p.cell[1], p.cell[2]}];
        double ms = species_mass(o, g.sp);
        if (g.sp == 1) ms = cf(o, "mi", 25);
        C.n[g.sp]++;
        bool ch = false;
        for (int x = 0; x < 3; x++) {
          C.p[x] += ms * (g.u[x] - p.u[x]);
          C.ps += ms * (fabs(g.u[x]) + fabs(p.u[x]));
          C.e += ms * (g.u[x] * g.u[x] - p.u[x] * p.u[x]);
          C.es += ms * (g.u[x] * g.u[x] + p.u[x] * p.u[x]);
          if (fabs(g.u[x] - p.u[x]) > 1e-7 * (1 + fabs(p.u[x]))) ch = true;
        }
        if (touches[g.sp]) {
          double du = 0;
          for (int x = 0; x < 3; x++) du = std::max(du, fabs(g.u[x] - p.u[x]));
          C.who.push_back({g.w, du});
        }
        if (ch) {
          C.changed++;
          hits++;
          if (!touches[g.sp])
            c.fail(strf("step %lld: a particle of species %d, which no collision model involves, changed momentum", (long long)s, g.sp));
          if ((s - 1) % ci_)
            c.fail(strf("step %lld: momentum of a particle of species %d changed although collisions are due every %lld steps", (long long)s, g.sp,
                        (long long)ci_));
        }
        if (memcmp(&g.w, &p.w, 4)) c.fail(strf("step %lld: a collision changed a particle's weight from %.9g to %.9g", (long long)s, p.w, g.w));
      }
      for (auto &q : cells) {
        Cell &C = q.second;
        if (balanced) {
          for (int x = 0; x < 3; x++) {
            double d = fabs(C.p[x]) / std::max(C.ps, 1e-9);
            worst_p = std::max(worst_p, d);
            if (!(d <= 1e-4))
              c.fail(strf("step %lld: collisions changed the momentum in cell (%d,%d,%d) by %.3g of its size", (long long)s, q.first[0], q.first[1],
                          q.first[2], d));
          }
          double d = fabs(C.e) / std::max(C.es, 1e-9);
          worst_e = std::max(worst_e, d);
          if (!(d <= 1e-4))
            c.fail(strf("step %lld: collisions changed the energy in cell (%d,%d,%d) by %.3g of its size", (long long)s, q.first[0], q.first[1],
                        q.first[2], d));
        }
        if (uneq && C.who.size() == 2 && ((m & (2 | 16)) ? C.n[0] == 2 : C.n[0] == 1)) {
          std::sort(C.who.begin(), C.who.end());
          auto &l = C.who[0], &h = C.who[1];
          if (h.second > 1e-4 && l.second == 0)
            c.fail(strf("step %lld: of the two particles in cell (%d,%d,%d) only the one of weight %.6g was scattered, not the one of weight %.6g",
                        (long long)s, q.first[0], q.first[1], q.first[2], h.first, l.first));
          if (l.first == h.first && (l.second > 1e-3) != (h.second > 1e-3) && (l.second == 0 || h.second == 0))
            c.fail(strf("step %lld: of the two particles of equal weight in cell (%d,%d,%d) only one was scattered", (long long)s, q.first[0],
                        q.first[1], q.first[2]));
          if (l.first < h.first && l.second > 1e-4 && once) {
            lone++;
            heavy += h.second > 0;
          }
        }
        if (!uneq && (s - 1) % ci_ == 0 && C.n[0] && C.n[1] && !C.changed && ((m & 8) || ((m & 1) && sat)))
          c.fail(strf("step %lld: no collision took place in cell (%d,%d,%d) holding %d and %d particles of the colliding species", (long long)s,
                      q.first[0], q.first[1], q.first[2], C.n[0], C.n[1]));
      }
    }
    prev.swap(now);
  }
  if (uneq) { // weights differ by a factor of three
    double mean = lone / 3.0, dev = sqrt(lone * 2 / 9.0);
    if (fabs(heavy - mean) > 6.5 * dev + 2)
      c.fail(strf("of %zu scattered pairs of unequal weight the heavier particle changed in %zu; balance asks for about %.0f", lone, heavy, mean));
    sim->note("probe.unequal_pairs", lone);
  }
  worst("pbalance", worst_p);
  worst("ebalance", worst_e);
  sim->note("probe.scattered", hits);
  c.nontrivial(a.hash);
}

// ------------------------------------------------------------------ C27 diagnostics
PROPERTY(C27, "distinct (workload, schedule) pairs in which energies, moments and fluxes were recomputed in double precision from the recorded state",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.hole = true;
  f.rec = 2;
  f.maxtpp = 3;
  f.maxsteps = 5;
  f.bc = 7;
  ExecOpts o = work(c, f);
  seti(o, "recen", 1);
  if (c.B("hyd", 0.5)) seti(o, "dump", 8);
  bool poy =
      !ci(o, "uneven", 0) && ci(o, "ny", 4) / ci(o, "py", 1) >= 2 && ci(o, "nz", 4) / ci(o, "pz", 1) >= 2 && ci(o, "nx", 4) / ci(o, "px", 1) >= 2;
  if (poy) {
    seti(o, "poy", 1);
    setd(o, "poy_e0", c.D("pe0", {1.0, 0.3}));
  }
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  World3 w(o);
  auto q = charges(o);
  auto per = periodic_axes(w);
  Fields fl;
  double we = 0, wp = 0, wh = 0, wf = 0;
  const auto mats = materials_of(o);
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    gather_fields(w, S, fl);
    double dt = S.r[0].g.dt, V = w.V;
    std::vector<const double *> rs;
    if (!rec_all(a, strf("en.%lld", (long long)s), rs)) c.fail("energies were not reported");
    for (size_t r = 1; r < rs.size(); r++)
      for (int i = 0; i < 6 + w.nsp; i++)
        if (memcmp(rs[r] + i, rs[0] + i, 8))
          c.fail(strf("step %lld: energy %d is %.17g on rank 0 and %.17g on rank %zu", (long long)s, i, rs[0][i], rs[r][i], r));
    double en[10] = {0};
    for (auto &v : S.r)
      for (int k = 1; k <= v.n.nz; k++)
        for (int j = 1; j <= v.n.ny; j++)
          for (int i = 1; i <= v.n.nx; i++)
            for (int x = 0; x < 3; x++) {
              int y = (x + 1) % 3, z = (x + 2) % 3;
              for (int h = 0; h < 4; h++) {
                int g[3] = {i, j, k};
                g[y] += h & 1;
                g[z] += h >> 1;
                const PField &p = v.f[v.v(g[0], g[1], g[2])];
                int mt = (&p.ematx)[x];
                double ee = comp(p, C_EX + x);
                en[x] += 0.25 * mats[mt].eps[x] * ee * ee;
              }
              for (int h = 0; h < 2; h++) {
                int g[3] = {i, j, k};
                g[x] += h;
                const PField &p = v.f[v.v(g[0], g[1], g[2])];
                int mt = (&p.fmatx)[x];
                double bb = comp(p, C_BX + x);
                en[3 + x] += 0.5 * bb * bb / mats[mt].mu[x];
              }
            }
    double sc = 1e-12;
    for (int i = 0; i < 6; i++) {
      en[i] *= 0.5 * w.eps0 * V;
      sc = std::max(sc, en[i]);
    }
    for (int i = 0; i < 6; i++) {
      double d = fabs(en[i] - rs[0][i]) / sc;
      we = std::max(we, d);
      if (!(d <= 1e-5)) c.fail(strf("step %lld: field energy %d is reported as %.9g; the fields give %.9g", (long long)s, i, rs[0][i], en[i]));
    }
    int E[3] = {w.N[0] + 1, w.N[1] + 1, w.N[2] + 1};
    bool hyd = ci(o, "dump", 0) & 8;
    for (int k = 0; k < w.nsp && k < 4; k++) {
      double t = 0, k2 = q[k] * dt / (2 * species_mass(o, k) * w.cvac), ms = species_mass(o, k);
      Mesh H[14];
      if (hyd)
        for (auto &h : H) {
          h.init(E);
          std::fill(h.v.begin(), h.v.end(), 0.0);
        }
      for (size_t r = 0; r < S.r.size(); r++)
        for (size_t i = 0; i < S.r[r].sp[k].second; i++) {
          GP g;
          std::string e = place(w, S.r[r], (int)r, k, S.r[r].sp[k].first[i], g);
          if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
          double u[3];
          half_kick(w, fl, g, k2, u);
          double u2 = u[0] * u[0] + u[1] * u[1] + u[2] * u[2], gm = sqrt(1 + u2);
          t += ms * g.w * u2 / (1 + gm);
          if (hyd) {
            double B[3], b2 = 0;
            for (int x = 0; x < 3; x++) {
              double tt = g.x[x] - g.cell[x];
              int z[3] = {g.cell[0], g.cell[1], g.cell[2]};
              double lo = fl.m[M_BX + x].at(z[0], z[1], z[2]);
              z[x]++;
              B[x] = (1 - tt) * lo + tt * fl.m[M_BX + x].at(z[0], z[1], z[2]);
              b2 += B[x] * B[x];
            }
            double bb = sqrt(b2), th = 0.5 * k2 * bb / gm, tt = (bb > 0 ? th / bb : 0) * (1 + th * th / 3 + 2 * th * th * th * th / 15),
                   ss = 2 * tt / (1 + tt * tt * b2), uu[3], un[3];
            for (int x = 0; x < 3; x++) {
              int y = (x + 1) % 3, z = (x + 2) % 3;
              uu[x] = u[x] + tt * (u[y] * B[z] - u[z] * B[y]);
            }
            for (int x = 0; x < 3; x++) {
              int y = (x + 1) % 3, z = (x + 2) % 3;
              un[x] = u[x] + ss * (uu[y] * B[z] - uu[z] * B[y]);
            }
            double cv = w.cvac, vv[3] = {un[0] * cv / gm, un[1] * cv / gm, un[2] * cv / gm},
                   pp[3] = {ms * cv * un[0], ms * cv * un[1], ms * cv * un[2]};
            double val[14] = {
                q[k] * vv[0],  q[k] * vv[1],  q[k] * vv[2],  q[k],          pp[0],         pp[1],        pp[2], ms * cv * cv * u2 / (gm + 1),
                pp[0] * vv[0], pp[1] * vv[1], pp[2] * vv[2], pp[1] * vv[2], pp[2] * vv[0], pp[0] * vv[1]};
            for (int b = 0; b < 8; b++) {
              double wt = g.w / V;
              int z[3];
              for (int x = 0; x < 3; x++) {
                int h = b >> x & 1;
                double f0 = g.x[x] - g.cell[x];
                wt *= h ? f0 : 1 - f0;
                z[x] = g.cell[x] + h;
              }
              for (int m = 0; m < 14; m++) H[m].at(z[0], z[1], z[2]) += wt * val[m];
            }
          }
        }
      t *= w.cvac * w.cvac;
      double d = fabs(t - rs[0][6 + k]) / std::max(1e-12, t);
      wp = std::max(wp, d);
      if (!(d <= 2e-5))
        c.fail(strf("step %lld: kinetic energy of species %d is reported as %.9g; the particles give %.9g", (long long)s, k, rs[0][6 + k], t));
      if (hyd)
        for (int m = 0; m < 14; m++) {
          for (int x = 0; x < 3; x++) {
            int y = (x + 1) % 3, z = (x + 2) % 3;
            for (int i = 0; i < E[y]; i++)
              for (int j = 0; j < E[z]; j++) {
                int lo[3], hi[3];
                lo[x] = 0;
                hi[x] = w.N[x];
                lo[y] = hi[y] = i;
                lo[z] = hi[z] = j;
                double &A = H[m].at(lo[0], lo[1], lo[2]), &B = H[m].at(hi[0], hi[1], hi[2]);
                if (per[x] || w.N[x] == 1) A = B = A + B;
                else {
                  A *= 2;
                  B *= 2;
                }
              }
          }
          double hs = 1e-12;
          for (double z : H[m].v) hs = std::max(hs, fabs(z));
          if (m != 3 && m != 7) hs = std::max(hs, 1e-3 * ms * w.cvac * 1e-3);
          for (size_t r = 0; r < S.r.size(); r++) {
            auto &v = S.r[r];
            auto of = offset(w, v);
            const std::string *hr = a.rec((int)r, strf("hy%d.%lld", k, (long long)s));
            if (!hr) c.fail("moments were not reported");
            const float *hp = (const float *)hr->data();
            for (int z = 1; z <= v.n.nz + 1; z++)
              for (int y = 1; y <= v.n.ny + 1; y++)
                for (int x = 1; x <= v.n.nx + 1; x++) {
                  double want = H[m].at(of[0] + x - 1, of[1] + y - 1, of[2] + z - 1), got = hp[(size_t)v.v(x, y, z) * 16 + m],
                         dd = fabs(want - got) / hs;
                  wh = std::max(wh, dd);
                  if (!(dd <= 1e-4))
                    c.fail(strf("step %lld: moment %d of species %d at node (%d,%d,%d) of rank %zu is %.9g; the particles give %.9g", (long long)s, m,
                                k, x, y, z, r, got, want));
                }
          }
        }
    }
    if (poy) {
      double e0 = cf(o, "poy_e0", 1), t = 0, mag = 1e-12;
      size_t n = 0;
      if (!rec_all(a, strf("poy.%lld", (long long)s), rs)) c.fail("the flux was not reported");
      for (auto &v : S.r)
        if (offset(w, v)[0] == 0)
          for (int j = 2; j <= v.n.ny; j++)
            for (int k = 2; k <= v.n.nz; k++) {
              const PField &k1 = v.f[v.v(1, j, k)], &k3 = v.f[v.v(2, j, k)];
              double z = (k3.ey * 0.5 * (k1.cbz + k3.cbz) - k3.ez * 0.5 * (k1.cby + k3.cby)) / (w.cvac * w.cvac * e0 * e0);
              t += z;
              mag += fabs(z);
              n++;
            }
      t /= n;
      mag /= n;
      for (size_t r = 0; r < rs.size(); r++) {
        double d = fabs(*rs[r] - t) / mag;
        wf = std::max(wf, d);
        if (!(d <= 1e-5))
          c.fail(
              strf("step %lld: the flux through the low x face is reported as %.9g on rank %zu; the fields give %.9g", (long long)s, *rs[r], r, t));
      }
    }
  }
  worst("field_energy", we);
  worst("kinetic_energy", wp);
  worst("moments", wh);
  worst("flux", wf);
  c.nontrivial(a.hash);
}
