// Properties about physical content: conservation, agreement between layouts, consistency of shared data.
#include "phys.hh"
#include <climits>
static ExecOpts one_rank(const ExecOpts &o) {
  ExecOpts q = o;
  q.nrank = 1;
  seti(q, "px", 1);
  seti(q, "py", 1);
  seti(q, "pz", 1);
  q.pol = Policy();
  return q;
}
struct Cmp {
  double worst_f = 0, worst_p = 0, worst_u = 0;
  bool borderline = false;
};
// compares two recordings of the same physical problem up to rounding; "" when they agree
static std::string compare_fields(const World3 &w, const StepView &A, const StepView &B, double tol, double *worst, const std::vector<int> &comps) {
  for (int grp = 0; grp < 2; grp++) {
    double scale = 1e-6;
    std::vector<std::array<double, 2>> dummy;
    for (auto &v : A.r)
      for (int c = grp * 3; c < grp * 3 + 3; c++) {
        int e[3];
        extent(c, local_n(v), e);
        for (int k = 1; k <= e[2]; k++)
          for (int j = 1; j <= e[1]; j++)
            for (int i = 1; i <= e[0]; i++) {
              double x = fabs(comp(v.f[v.v(i, j, k)], c));
              if (x > scale) scale = x;
            }
      }
    for (int c = grp * 3; c < grp * 3 + 3; c++) {
      if (std::find(comps.begin(), comps.end(), c) == comps.end()) continue;
      int E[3];
      extent(c, w.N, E);
      std::vector<double> ref((size_t)E[0] * E[1] * E[2], NAN);
      for (auto &v : A.r) {
        auto o = offset(w, v);
        int e[3];
        extent(c, local_n(v), e);
        for (int k = 1; k <= e[2]; k++)
          for (int j = 1; j <= e[1]; j++)
            for (int i = 1; i <= e[0]; i++)
              ref[(o[0] + i - 1) + (size_t)E[0] * ((o[1] + j - 1) + (size_t)E[1] * (o[2] + k - 1))] = comp(v.f[v.v(i, j, k)], c);
      }
      for (size_t r = 0; r < B.r.size(); r++) {
        auto &v = B.r[r];
        auto o = offset(w, v);
        int e[3];
        extent(c, local_n(v), e);
        for (int k = 1; k <= e[2]; k++)
          for (int j = 1; j <= e[1]; j++)
            for (int i = 1; i <= e[0]; i++) {
              double a = ref[(o[0] + i - 1) + (size_t)E[0] * ((o[1] + j - 1) + (size_t)E[1] * (o[2] + k - 1))], b = comp(v.f[v.v(i, j, k)], c);
              double d = fabs(a - b) / scale;
              if (d > *worst) *worst = d;
              if (!(d <= tol))
                return strf("step %lld: field component %d at global mesh point (%d,%d,%d) is %.9g on rank %zu of one layout and %.9g in the other "
                            "(relative difference %.2g)",
                            (long long)A.step, c, o[0] + i, o[1] + j, o[2] + k, b, r, a, d);
            }
      }
    }
  }
  return "";
}
static bool near_face(const GP &g) {
  for (int a = 0; a < 3; a++)
    if (fabs(g.x[a] - floor(g.x[a] + 0.5)) < 1e-3) return true;
  return false;
}
static std::string compare_particles(const World3 &w, const StepView &A, const StepView &B, double tol, Cmp *cm) {
  PMap a, b;
  std::string e = collect(w, A, a);
  if (e.empty()) e = collect(w, B, b);
  if (!e.empty()) return strf("step %lld: ", (long long)A.step) + e;
  auto per = periodic_axes(w);
  for (int pass = 0; pass < 2; pass++)
    for (auto &p : pass ? b : a)
      if (!(pass ? a : b).count(p.first)) {
        if (near_face(p.second)) {
          cm->borderline = true;
          continue;
        }
        return strf("step %lld: the particle of species %d with weight %.9g at (%.6g,%.6g,%.6g) exists only in the %s run", (long long)A.step,
                    p.first.first, p.second.w, p.second.x[0], p.second.x[1], p.second.x[2], pass ? "second" : "first");
      }
  if (getenv("SIM_PART"))
    for (auto &p : a)
      if (fabs(p.second.w - atof(getenv("SIM_PART"))) < 1e-9) {
        auto &q = b[p.first];
        fprintf(stderr, "step %lld a x %.9g %.9g %.9g u %.9g %.9g %.9g | b x %.9g %.9g %.9g u %.9g %.9g %.9g\n", (long long)A.step, p.second.x[0],
                p.second.x[1], p.second.x[2], p.second.u[0], p.second.u[1], p.second.u[2], q.x[0], q.x[1], q.x[2], q.u[0], q.u[1], q.u[2]);
      }
  for (auto &p : a) {
    auto it = b.find(p.first);
    if (it == b.end()) continue;
    bool onface = false;
    for (int q = 0; q < 3; q++)
      if (p.second.cell[q] != it->second.cell[q]) cm->borderline = onface = true; // on a face: the interpolated fields differ between the two cells
    double g = 1;
    for (int q = 0; q < 3; q++) g += fabs(p.second.u[q]);
    for (int q = 0; q < 3; q++) {
      double dx = fabs(image_dist(w, per, p.second, it->second, q)), du = fabs(p.second.u[q] - it->second.u[q]) / g;
      if (du > tol && fabs(p.second.u[q] + it->second.u[q]) / g < tol && near_face(p.second) && dx < 1e-3) {
        cm->borderline = true;
        continue;
      }
      if (dx > cm->worst_p) cm->worst_p = dx;
      if (du > cm->worst_u) cm->worst_u = du;
      if (!(dx <= tol))
        return strf("step %lld: particle of species %d with weight %.9g is at %.9g in one run and %.9g in the other along axis %d (cells)",
                    (long long)A.step, p.first.first, p.second.w, p.second.x[q], it->second.x[q], q);
      if (!(du <= tol) && !onface)
        return strf("step %lld: particle of species %d with weight %.9g has momentum %.9g in one run and %.9g in the other along axis %d",
                    (long long)A.step, p.first.first, p.second.w, p.second.u[q], it->second.u[q], q);
    }
  }
  return "";
}
// moments deposited on the mesh, compared node by node
static std::string compare_hydro(const World3 &w, const Exec &x, const StepView &A, const Exec &y, const StepView &B, int sp, double tol,
                                 double *worst) {
  int E[3] = {w.N[0] + 1, w.N[1] + 1, w.N[2] + 1};
  std::string key = strf("hy%d.%lld", sp, (long long)A.step);
  for (int c = 0; c < 14; c++) {
    std::vector<double> ref((size_t)E[0] * E[1] * E[2], NAN);
    double scale = 1e-9;
    for (int side = 0; side < 2; side++) {
      auto &S = side ? B : A;
      for (size_t r = 0; r < S.r.size(); r++) {
        const std::string *d = (side ? y : x).rec((int)r, key);
        if (!d) return "";
        const float *h = (const float *)d->data();
        auto &v = S.r[r];
        auto o = offset(w, v);
        for (int k = 1; k <= v.n.nz + 1; k++)
          for (int j = 1; j <= v.n.ny + 1; j++)
            for (int i = 1; i <= v.n.nx + 1; i++) {
              double z = h[(size_t)v.v(i, j, k) * 16 + c];
              size_t g = (o[0] + i - 1) + (size_t)E[0] * ((o[1] + j - 1) + (size_t)E[1] * (o[2] + k - 1));
              if (!side) {
                ref[g] = z;
                scale = std::max(scale, fabs(z));
              } else {
                double dd = fabs(z - ref[g]) / scale;
                if (dd > *worst) *worst = dd;
                if (!(dd <= tol))
                  return strf("step %lld: moment %d of species %d at global node (%d,%d,%d) is %.9g in one run and %.9g in the other",
                              (long long)A.step, c, sp, o[0] + i, o[1] + j, o[2] + k, z, ref[g]);
              }
            }
      }
    }
  }
  return "";
}
static void same_physics(Ctx &c, const ExecOpts &oa, const Exec &a, const ExecOpts &ob, const Exec &b, const char *what, double tol) {
  World3 w(oa);
  World3 wb(ob);
  Cmp cm;
  double wh = 0;
  i64 lim = std::min(first_full(a), first_full(b));
  for (i64 s = 0; s <= w.nsteps && s <= lim; s++) {
    StepView A = need(c, a, s, w), B = need(c, b, s, wb);
    std::string e = compare_particles(w, A, B, tol, &cm);
    if (e.empty() && !cm.borderline) e = compare_fields(w, A, B, tol, &cm.worst_f, {0, 1, 2, 3, 4, 5});
    if (e.empty() && !cm.borderline && ci(oa, "dump", 0))
      for (int k = 0; k < w.nsp && e.empty(); k++) e = compare_hydro(w, a, A, b, B, k, tol, &wh);
    if (e.empty() && !cm.borderline && ci(oa, "recen", 0)) {
      auto *x = a.rec(0, strf("en.%lld", (long long)s)), *y = b.rec(0, strf("en.%lld", (long long)s));
      if (!x || !y) c.fail("energies were not reported");
      const double *p = (const double *)x->data(), *q = (const double *)y->data();
      double sc = 1e-9;
      for (int i = 0; i < 6; i++) sc = std::max(sc, fabs(p[i]));
      for (int i = 0; i < 6 + w.nsp && i < 10; i++) {
        double z = i < 6 ? sc : std::max(1e-9, fabs(p[i]));
        if (!(fabs(p[i] - q[i]) <= 10 * tol * z))
          e = strf("step %lld: energy %d is %.9g in one run and %.9g in the other", (long long)s, i, p[i], q[i]);
      }
    }
    if (!e.empty()) c.fail(std::string(what) + ": " + e);
    if (cm.borderline) {
      sim->note("probe.borderline_particle");
      break;
    }
  }
  auto dec = [](double x) { return x <= 1e-6 ? 6 : (int)floor(-log10(x)); };
  sim->note(strf("probe.worst_field_1e-%d", dec(cm.worst_f)));
  sim->note(strf("probe.worst_momentum_1e-%d", dec(cm.worst_u)));
  sim->note(strf("probe.worst_position_1e-%d", dec(cm.worst_p)));
}
PROPERTY(C04, "distinct (problem, layout, schedule) triples whose complete state was compared at every step with the same problem on one process",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.minrank = 2;
  f.rng = false;
  f.maxtpp = 2;
  f.rec = 2;
  f.bc = 7;
  ExecOpts o = work(c, f);
  if (c.B("hyd", 0.3)) seti(o, "dump", 8);
  if (c.B("recen", 0.4)) seti(o, "recen", 1);
  // so many processes along one axis that each owns a single cell of it
  bool thin = false;
  if (c.B("thin", 0.03) && !ci(o, "uneven", 0))
    for (int a = 0; a < 3 && !thin; a++) {
      const std::string n(1, "xyz"[a]);
      if (ci(o, ("p" + n).c_str(), 1) == 1) continue;
      thin = true;
      seti(o, ("n" + n).c_str(), ci(o, ("p" + n).c_str(), 1));
    }
  o.pol = rpol(c, "pol", o.nrank, false);
  ExecOpts q = one_rank(o);
  Exec a = sim->run(q);
  must_succeed(c, a, "the run on one process");
  Exec b = sim->run(o);
  must_succeed(c, b, "the run on several processes");
  same_physics(c, q, a, o, b, thin ? "dividing an axis into single cells changed the physics" : "dividing the problem among processes changed the physics", 2e-4);
  c.nontrivial(b.hash);
}
PROPERTY(C05, "distinct (problem, thread count, build) triples whose complete state was compared at every step with the scalar single-threaded run",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.maxrank = 2;
  f.rng = false;
  f.maxtpp = 6;
  f.maxcell = 6;
  f.rec = 2;
  f.bc = 7;
  f.heavy = true;
  ExecOpts o = work(c, f);
  if (c.B("hyd", 0.4)) seti(o, "dump", 8);
  if (c.B("recen", 0.4)) seti(o, "recen", 1);
  ExecOpts q = o;
  q.lib = "ref";
  q.args = {"--tpp", "1"};
  if (c.lib != "v8omp" && c.B("host0", 0.2)) {
    o.args.push_back("--dispatch_to_host");
    o.args.push_back("0");
  }
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(q);
  must_succeed(c, a, "the single-threaded scalar run");
  Exec b = sim->run(o);
  must_succeed(c, b, "the threaded or vectorised run");
  same_physics(c, q, a, o, b, "the number of threads or the vector width changed the physics", 2e-4);
  c.nontrivial(b.hash);
}
PROPERTY(C06, "distinct (workload, schedule) pairs in which every particle was followed by identity through every step", "ref", "v4sse", "v8avx2",
         "v16p", "v8omp") {
  Feat f;
  f.hole = true;
  f.rec = 2;
  f.maxtpp = 3;
  f.maxsteps = 8;
  f.bc = 7;
  f.coll = true;
  f.emit = false;
  ExecOpts o = work(c, f);
  if (ci(o, "cbc", 0) == 1 && c.B("nocbc1", 0.3)) seti(o, "cbc", 0);
  o.pol = rpol(c, "pol", o.nrank, false);
  if (c.B("hot", 0.3)) {
    setd(o, "drx", 3);
    setd(o, "dry", -3);
    setd(o, "drz", 3);
  }
  // fewer exchange rounds than a particle can need: those still in flight are dropped, and announced
  if (c.B("fewrounds", 0.25)) seti(o, "rounds", c.I("rounds12", 1, 2));
  int rounds = (int)ci(o, "rounds", 3);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  bool over = overflowed(a);
  World3 w(o);
  PMap prev, now;
  bool absorbing = false, refl = false;
  StepView s0 = need(c, a, 0, w);
  auto &wb = w.wall;
  auto per = periodic_axes(w);
  for (int q = 0; q < 6; q++)
    if (wb[q] != INT_MIN) {
      if (wb[q] == -2 || wb[q] == -3) absorbing = true;
    }
  (void)refl;
  int cbc = (int)ci(o, "cbc", 0);
  size_t excused = announced_removals(a);
  size_t announced = excused, gone = 0;
  if (excused && rounds < 3) sim->note("probe.dropped_in_flight", excused);
  if (excused && cbc != 2 && rounds >= 3)
    c.fail(strf("%zu particles were dropped as still in flight although no particle can cross more faces in a step than there are exchange rounds",
                excused));
  bool slab = cbc && ci(o, "cbc_wall", 0) == 0;
  double dt = s0.r[0].g.dt, cv = s0.r[0].g.cvac;
  (void)absorbing;
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    std::string e = collect(w, S, now);
    if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
    if (s == 0) {
      if (!ci(o, "noload", 0) && !o.cfg.count("hole") && !o.cfg.count("fillfrac") && !ci(o, "tightnp", 0)) {
        size_t want = (size_t)w.N[0] * w.N[1] * w.N[2] * ci(o, "ppc", 1) * w.nsp;
        if (now.size() != want) c.fail(strf("%zu particles loaded, %zu put in", now.size(), want));
      }
      prev.swap(now);
      continue;
    }
    size_t born = 0;
    for (auto &p : now) {
      auto it = prev.find(p.first);
      if (it == prev.end()) {
        born++;
        continue;
      }
      double g = 1;
      for (int q = 0; q < 3; q++) g += p.second.u[q] * p.second.u[q];
      (void)g;
      for (int q = 0; q < 3; q++) {
        double lim = cv * dt / w.h[q];
        double dd = fabs(image_dist(w, per, p.second, it->second, q));
        if (w.flat(q) && per[q]) continue;
        if (dd > lim * 1.0001 + 1e-5)
          c.fail(strf("step %lld: particle of species %d with weight %.9g moved %.6g cells along axis %d; light moves %.6g", (long long)s,
                      p.first.first, p.second.w, dd, q, lim));
      }
    }
    size_t injected = 0;
    if (ci(o, "inj", 0))
      for (int r = 0; r < o.nrank; r++)
        for (int i = 0; i < 16; i++) {
          auto *v = a.rec(r, strf("inj.%lld.%d", (long long)s - 1, i));
          if (v && ((const double *)v->data())[0] != 0) injected++;
        }
    size_t lost = 0;
    for (auto &p : prev)
      if (!now.count(p.first)) {
        lost++;
        bool may = over;
        for (int q = 0; q < 6 && !may; q++)
          if (wb[q] != INT_MIN && wb[q] != -1) {
            double dist = q < 3 ? p.second.x[q] : w.N[q - 3] - p.second.x[q - 3];
            if (dist < 1.0001) {
              if (cbc == 2 && wb[q] < -2) continue;
              may = true;
            }
          }
        if (slab && cbc == 1) may = may || p.second.x[0] >= floor(0.75 * w.N[0]) - 1.5;
        if (!may && excused) {
          excused--;
          may = true;
          if (cbc == 0) { // it must have been able to leave the domain of its process more often than there were rounds
            int axes = 0;
            const RankView &R = S.r[p.second.rank];
            const int ln[3] = {R.n.nx, R.n.ny, R.n.nz};
            for (int q = 0; q < 3; q++) {
              double lo = p.second.x[q] - offset(w, R)[q], lim = cv * dt / w.h[q] * 1.0001 + 1e-5;
              if (lo < lim || ln[q] - lo < lim) axes++;
            }
            if (axes <= rounds)
              c.fail(strf("step %lld: particle of species %d with weight %.9g last seen at (%.6g,%.6g,%.6g) on rank %d was dropped as in flight "
                          "after %d rounds, but it cannot leave its domain more than %d times",
                          (long long)s, p.first.first, p.second.w, p.second.x[0], p.second.x[1], p.second.x[2], p.second.rank, rounds, axes));
          }
        }
        if (!may)
          c.fail(strf("step %lld: particle of species %d with weight %.9g last seen at (%.6g,%.6g,%.6g) on rank %d vanished", (long long)s,
                      p.first.first, p.second.w, p.second.x[0], p.second.x[1], p.second.x[2], p.second.rank));
      }
    gone += lost + injected - std::min(born, injected);
    if (born > injected) c.fail(strf("step %lld: %zu particles appeared, %zu were injected", (long long)s, born, injected));
    if (lost) sim->note("probe.absorbed", lost);
    if (injected) sim->note("probe.injected", injected);
    if (!over && !announced && born < injected) {
      bool wallnear = false;
      for (int q = 0; q < 6; q++)
        if (wb[q] != INT_MIN && wb[q] != -1) wallnear = true;
      if (!wallnear && !(slab && cbc == 1)) c.fail(strf("step %lld: %zu particles injected, %zu present", (long long)s, injected, born));
    }
    size_t moved = 0;
    for (auto &p : now) {
      auto it = prev.find(p.first);
      if (it != prev.end() && it->second.rank != p.second.rank) moved++;
    }
    if (moved) sim->note("probe.migrated", moved);
    if (over) {
      sim->note("probe.announced_overflow");
      break;
    }
    prev.swap(now);
  }
  bool open = slab && cbc == 1;
  for (int q = 0; q < 6; q++)
    if (wb[q] != INT_MIN && wb[q] != -1 && !(cbc == 2 && wb[q] < -2)) open = true;
  if (!over && !open && gone != announced)
    c.fail(strf("%zu particles are missing at the end, the program announced the removal of %zu", gone, announced));
  c.nontrivial(a.hash);
}
