// Collision frequencies and scattering laws: what the models promise on average, tested against the exact pre-collision state of every pair.
#include "phys.hh"
#include "refmodel.hh"

struct Uniform { // deviates that ought to be uniform on [0,1]
  std::vector<double> v;
  void add(double x) { v.push_back(x); }
  std::string bad(const char *what) const {
    const size_t n = v.size();
    if (n < 150) return "";
    const int B = 10;
    int h[B] = {0};
    double m = 0;
    for (double x : v) {
      h[std::max(0, std::min(B - 1, (int)(x * B)))]++;
      m += x / n;
    }
    if (!(fabs(m - 0.5) < 7 / sqrt(12. * n))) return strf("%s: over %zu collisions its mean rank is %.4f instead of 0.5", what, n, m);
    const double e = (double)n / B;
    for (int i = 0; i < B; i++)
      if (fabs(h[i] - e) > 7 * sqrt(e) + 8)
        return strf("%s: %d of %zu collisions fall into the %d. tenth of the prescribed distribution", what, h[i], n, i + 1);
    return "";
  }
};
struct Expect {                                 // a sum of independent terms, each with its own expectation
  double got = 0, want = 0, var = 0, slack = 0; // slack: what a few single events can make
  size_t n = 0;
  void add(double g, double w, double v) {
    got += g;
    want += w;
    var += v;
    n++;
  }
  std::string bad(const char *what) const {
    if (fabs(got - want) > 7 * sqrt(var) + 1e-5 * fabs(want) + slack + (n < 150 ? 1e300 : 0))
      return strf("%s: %.6g where %.6g is prescribed (spread %.2g, %zu terms)", what, got, want, sqrt(var), n);
    return "";
  }
};
static double mean_sin2(double s) { // mean of d^2 / (1 + d^2) for normal d of width s
  double x = 1 / (s * sqrt(2.));
  if (s < 0.2) return s * s * (1 - 3 * s * s * (1 - 5 * s * s * (1 - 7 * s * s)));
  return 1 - sqrt(M_PI / 2) / s * exp(x * x) * erfc(x);
}
static double normal_rank(double x) { return 0.5 * erfc(-x / sqrt(2.)); }

PROPERTY(C32, "distinct (workload, schedule) pairs in which collision frequencies and scattering angles were compared with the law of their model",
         "ref", "v4sse", "v8omp") {
  Feat f;
  f.rec = 2;
  f.maxtpp = 4;
  f.mincell = 3;
  f.maxcell = 7;
  f.bc = 1;
  f.rng = f.inj = f.mat = f.current = f.cleaning = false;
  ExecOpts o = work(c, f);
  for (auto k : {"edgepos", "b0", "drx", "dry", "drz", "oop"}) o.cfg.erase(k);
  setd(o, "f0", 0);
  seti(o, "tags", 0);
  int nsp = std::max<int>(2, (int)ci(o, "nsp", 2));
  seti(o, "nsp", nsp);
  const i64 m = c.P("cm", {1, 2, 8, 16, 32, 64, 128, 4});
  const bool intra = m == 2 || m == 16, fluid = m == 64 || m == 128, ta = m == 8 || m == 16, lac = m == 32 || m == 128;
  seti(o, "coll", m);
  const i64 cint = c.I("cint", 1, 3);
  seti(o, "cint", cint);
  seti(o, "nsteps", c.I("hsteps", 12, 36));
  setd(o, "ute", c.D("cute", {0.3, 0.1, 0.6}));
  setd(o, "uti", c.D("cuti", {0.05, 0.2}));
  setd(o, "cvac", 1);
  setd(o, "eps0", 1);
  if (m != 4 && c.B("cunits", 0.3)) {
    setd(o, "cvac", 2);
    setd(o, "eps0", 0.5);
  }
  setd(o, "mi", c.D("cmi", {1, 3, 25}));
  seti(o, "ppc", c.B("cmany", 0.4) ? c.I("cppc", 1, 5) : intra ? 2 : 1);
  setd(o, "fillfrac", c.D("cfill", {1.0, 0.8}));
  const double cv = cf(o, "cvac", 1), eps0 = cf(o, "eps0", 1);
  double qi = 1, qe = -1;
  if (lac && !fluid) {
    setd(o, "wpe2", 1e-16);
    setd(o, "qx", qe = -1e4);
    setd(o, "qi", qi = c.P("cqs", {0, 1}) ? 1e4 : -2e4);
    setd(o, "cb", c.D("ccb", {8e7, 3e7, 1.5e8}));
  } else {
    setd(o, "wpe2", 1e-12);
    setd(o, "cr", fluid ? c.D("ccrf", {0.2, 0.4}) : c.D("ccr", {4e5, 2e5, 7e5}));
    setd(o, "cb", c.D("ccbf", {0.4, 0.7}));
    setd(o, "cvar0", c.D("ccv", {1e10, 1e9, 1e8, 1e7, 1e11}));
    if (m == 4) {
      setd(o, "ckT", c.D("ckt", {0.01, 0.1}));
      setd(o, "cnu", c.D("cknu", {0.2, 1.0, 0.02}));
    }
  }
  if (fluid) {
    setd(o, "fn0", c.D("cfn", {0.5, 1.0}));
    setd(o, "fkT", c.D("cfk", {0, 0.05}));
    setd(o, "fm0", c.D("cfm", {1, 25, 4}));
    setd(o, "fr0", c.D("cfr", {0.2, 0.1}));
    setd(o, "fq0", c.D("cfq", {1, -2}));
    if (c.B("fdrift", 0.5)) {
      setd(o, "fvx", 0.1);
      setd(o, "fvy", -0.3);
      setd(o, "fvz", 0.2);
    }
  }
  const i64 sample = !ta && !fluid && m != 4 && c.B("cs2", 0.2) ? 2 : 1;
  setd(o, "csample", (double)sample);
  const bool uneq = !fluid && m != 4 && sample == 1 && c.B("uneq", 0.3);
  if (uneq) seti(o, "uneqw", 1);
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run with collisions");
  World3 w(o);
  auto per = periodic_axes(w);
  const double mass[2] = {1, cf(o, "mi", 25)};
  std::vector<GP> prev, now;
  PMap dummy;
  Expect hits, push, gain, kicks;
  double kick2 = 0;
  Uniform polar, azim, kick[3];
  size_t pairs = 0;
  auto dot = [](const double *x, const double *y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
  auto azimuth = [&](const double *ur, const double *d) { // the direction of d around ur
    double u2 = dot(ur, ur), al = dot(ur, d) / u2, pv[3], pp = 0;
    for (int x = 0; x < 3; x++) {
      pv[x] = d[x] - al * ur[x];
      pp += pv[x] * pv[x];
    }
    if (pp < 1e-4 * u2) return;
    int k = 0;
    for (int x = 1; x < 3; x++)
      if (fabs(ur[x]) < fabs(ur[k])) k = x;
    double e1[3] = {0, 0, 0}, e2[3];
    const int x1 = (k + 1) % 3, x2 = (k + 2) % 3;
    e1[x1] = -ur[x2];
    e1[x2] = ur[x1];
    double n1 = sqrt(dot(e1, e1));
    for (int x = 0; x < 3; x++) e1[x] /= n1;
    for (int x = 0; x < 3; x++) e2[x] = (ur[(x + 1) % 3] * e1[(x + 2) % 3] - ur[(x + 2) % 3] * e1[(x + 1) % 3]) / sqrt(u2);
    azim.add(atan2(dot(pv, e2), dot(pv, e1)) / (2 * M_PI) + 0.5);
  };
  for (i64 s = 0; s <= w.nsteps; s++) {
    StepView S = need(c, a, s, w);
    now.clear();
    std::string e = collect(w, S, dummy, &now);
    if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
    const double dt = S.r[0].g.dt;
    std::vector<int> from;
    if (s) {
      e = free_flight(w, per, prev, now, dt, from);
      if (!e.empty()) c.fail(strf("step %lld: ", (long long)s) + e);
    }
    if (s && (s - 1) % cint == 0) {
      const double tau = dt * (double)cint;
      std::map<std::array<int, 3>, std::vector<size_t>> cells;
      for (size_t i = 0; i < now.size(); i++) {
        const GP &p = prev[from[i]], &g = now[i];
        if (p.sp > 1) continue;
        if (!fluid && m != 4) {
          cells[{p.cell[0], p.cell[1], p.cell[2]}].push_back(i);
          continue;
        }
        if (p.sp) continue;
        double du[3], ur[3];
        const char *fv[3] = {"fvx", "fvy", "fvz"};
        for (int x = 0; x < 3; x++) {
          du[x] = g.u[x] - p.u[x];
          ur[x] = p.u[x] - cf(o, fv[x], 0) / cv;
        }
        pairs++;
        if (m == 4) {
          const double nt = cf(o, "cnu", 0.2) * tau, decay = exp(-nt), drive = sqrt(-expm1(-2 * nt) * cf(o, "ckT", 0.01));
          for (int x = 0; x < 3; x++) kick[x].add(normal_rank((g.u[x] - decay * p.u[x]) / drive));
          continue;
        }
        const double n0 = cf(o, "fn0", 0.5), m0 = cf(o, "fm0", 1), ut2 = cf(o, "fkT", 0.01) / (m0 * cv * cv), u2 = dot(ur, ur),
                     K = (lac ? M_PI * pow(cf(o, "cb", 0.3), 2) : M_PI * pow(cf(o, "fr0", 0.2) + cf(o, "cr", 0.2), 2)) * cv * n0,
                     d = (3 * M_PI - 8) / (24 - 6 * M_PI),
                     rate = K * sqrt((8 / M_PI * ut2 * ut2 + 4 / (12 - 3 * M_PI) * ut2 * u2 + d * u2 * u2) / (ut2 + d * u2)),
                     pr = std::min(1., tau * rate);
        if (u2 < 4e-4) continue;
        const double d2 = dot(du, du);
        const bool hit = d2 > 1e-12;
        hits.add(hit, pr, pr * (1 - pr));
        if (!hit) continue;
        const double f2 = 2 * m0 / (mass[0] + m0), a2 = d2 / (f2 * f2);
        if (ut2 == 0) {
          const double sn = a2 / u2; // sin^2 of half the scattering angle
          if (lac) {
            const double B = 4 * M_PI * eps0 * mass[0] * m0 * cv * cv * cf(o, "cb", 0.3) / ((mass[0] + m0) * qe * cf(o, "fq0", 1)) * u2;
            if (B * B > 1e-3) polar.add((1 / sn - 1) / (B * B));
          } else polar.add(sn);
          azimuth(ur, du);
        } else if (!lac) { // averages over the impact parameter and the fluid's thermal motion
          double x = dot(du, ur), y = -0.5 * f2 * u2;
          push.add(x, y, (x - y) * (x - y));
          x = a2;
          y = 0.5 * (u2 + 3 * ut2);
          gain.add(x, y, (x - y) * (x - y));
        }
      }
      for (auto &q : cells) {
        std::vector<size_t> id[2];
        for (size_t i : q.second) id[now[i].sp].push_back(i);
        const size_t nk = id[0].size(), nl = intra ? nk : id[1].size();
        if (!nk || !nl) continue;
        const double q1 = qe, q2 = intra ? qe : qi, mi = mass[0], mj = intra ? mi : mass[1], mu = mi * mj / (mi + mj);
        auto &partners = id[intra ? 0 : 1];
        if (ta) { // everyone's mean squared kick, whoever the partner was
          double dk = 0, dl = 0;
          for (size_t i : id[0]) dk += prev[from[i]].w / w.V;
          for (size_t j : id[1]) dl += prev[from[j]].w / w.V;
          const double var = cf(o, "cvar0", 1e-3) * q1 * q1 * q2 * q2 / (mu * mu) * (intra ? dk : std::min(dk, dl)) * tau;
          std::vector<double> want[2];
          want[0].assign(nk, 0);
          want[1].assign(nl, 0);
          const bool exact = intra ? nk % 2 == 0 : nk == nl; // everybody collides once, as he was before
          bool ok = nk > 1 || !intra;
          for (size_t x = 0; x < nk && ok; x++)
            for (size_t y = 0; y < nl && ok; y++)
              if (!intra || x != y) {
                const GP &a = prev[from[id[0][x]]], &b = prev[from[partners[y]]];
                double r2 = 0;
                for (int k = 0; k < 3; k++) r2 += pow((double)a.u[k] - b.u[k], 2);
                const double sd = std::min(1., sqrt(var / (r2 * sqrt(r2)))), g = 4 * r2 * mean_sin2(sd), wa = std::min(1., (double)b.w / a.w),
                             wb = std::min(1., (double)a.w / b.w);
                ok = exact ? r2 > 1e-8 : sd < 0.05;
                const double each = intra ? 1. / (double)(nk - 1) : 1. / (double)std::min(nk, nl);
                want[0][x] += each * g * wa * pow(mj / (mi + mj), 2);
                want[1][y] += each * g * wb * pow(mi / (mi + mj), 2);
              }
          for (int sp = 0; sp < (intra ? 1 : 2) && ok; sp++)
            for (size_t x = 0; x < id[sp].size(); x++) {
              const GP &a = prev[from[id[sp][x]]], &b = now[id[sp][x]];
              double d2 = 0;
              for (int k = 0; k < 3; k++) d2 += pow((double)b.u[k] - a.u[k], 2);
              // a bound for the spread that does not depend on what happened
              kicks.add(d2, want[sp][x], 0);
              kicks.slack = std::max(kicks.slack, 20 * want[sp][x]);
              kick2 += want[sp][x] * want[sp][x] * 2 * (double)std::max(nk, nl);
            }
        } else { // the first pair that collides sees everybody's state from before
          const double nc = floor(0.5 + (intra ? 0.5 : 1.) * (double)sample * (double)std::max(nk, nl)),
                       np = intra ? (double)(nk * (nk + 1) / 2) : (double)(nk * nl);
          double p = 0;
          bool hit = false;
          for (size_t i : id[0])
            for (size_t j : partners)
              if (i != j) {
                const GP &a = prev[from[i]], &b = prev[from[j]];
                double r2 = 0;
                for (int k = 0; k < 3; k++) r2 += pow((double)a.u[k] - b.u[k], 2);
                const double K = M_PI * cv * sqrt(r2) * (lac ? pow(cf(o, "cb", 0.3), 2) : pow(2 * cf(o, "cr", 0.2), 2));
                p += std::min(1., std::max(a.w, b.w) / w.V * tau * np / nc * K) / (double)(nk * nl);
              }
          for (int sp = 0; sp < 2; sp++)
            for (size_t i : id[sp])
              for (int k = 0; k < 3; k++) hit |= fabs(now[i].u[k] - prev[from[i]].u[k]) > 1e-6 && (!intra || !sp);
          const double pr = 1 - pow(1 - p, nc);
          if (pr > 0) hits.add(hit, pr, pr * (1 - pr));
          pairs++;
        }
        if (intra ? id[0].size() != 2 : id[0].size() != 1 || id[1].size() != 1) continue;
        size_t I = id[0][0], J = intra ? id[0][1] : id[1][0];
        const GP &pi = prev[from[I]], &pj = prev[from[J]], &gi = now[I], &gj = now[J];
        double ur[3], D[3];
        const bool byj = pj.w < pi.w; // the lighter one always scatters
        for (int x = 0; x < 3; x++) {
          ur[x] = pi.u[x] - pj.u[x];
          D[x] = byj ? -(gj.u[x] - pj.u[x]) * (mi + mj) / mi : (gi.u[x] - pi.u[x]) * (mi + mj) / mj;
        }
        const double u2 = dot(ur, ur), d2 = dot(D, D), un = sqrt(u2), wmax = std::max(pi.w, pj.w), wmin = std::min(pi.w, pj.w);
        if (u2 < 4e-4) continue;
        if (ta) pairs++;
        const double sn = d2 / (4 * u2);
        if (ta) {
          const double dens = (intra ? wmin + wmax : wmin) / w.V,
                       sd = std::min(1., sqrt(cf(o, "cvar0", 1e-3) * q1 * q1 * q2 * q2 / (mu * mu) * dens * tau / (u2 * un)));
          if (sd < 1e-3) continue;
          polar.add(1 - erfc(sqrt(sn / std::max(1e-12, 1 - sn)) / sd / sqrt(2.)));
          azimuth(ur, D);
          continue;
        }
        if (d2 < 1e-11 || sample == 2) continue;
        if (lac) {
          const double B = 4 * M_PI * eps0 * mi * mj * cv * cv * cf(o, "cb", 0.3) / ((mi + mj) * q1 * q2) * u2;
          if (B * B > 1e-3 && B * B < 1e4) polar.add((1 / sn - 1) / (B * B));
        } else polar.add(sn);
        azimuth(ur, D);
      }
    }
    prev.swap(now);
  }
  hits.slack = 6;
  std::string e = hits.bad("the number of scattered particles or pairs");
  if (e.empty()) e = polar.bad("the deflection");
  if (e.empty()) e = azim.bad("the direction of deflection around the relative velocity");
  kicks.var = kick2 + pow(0.01 * kicks.want, 2);
  if (e.empty()) e = kicks.bad("the mean squared kick in cells with several particles");
  if (e.empty()) e = push.bad("the momentum taken by the background");
  if (e.empty()) e = gain.bad("the squared momentum exchanged with the background");
  for (int x = 0; x < 3 && e.empty(); x++) e = kick[x].bad("the thermal kick of the bath");
  if (!e.empty()) c.fail(strf("collision model %lld: ", (long long)m) + e);
  sim->note("probe.pairs", pairs);
  if (kicks.n) sim->note("probe.kicks", kicks.n);
  auto spread = [&](const char *k, const Expect &x) { // how far off, in standard deviations
    if (x.n > 149) sim->note(strf("probe.%s_off_by_%d_sigma", k, (int)(fabs(x.got - x.want) / sqrt(x.var + 1e-300))));
  };
  spread("hits", hits);
  spread("kicks", kicks);
  spread("push", push);
  spread("gain", gain);
  if (getenv("C32DBG") && kicks.n > 149) sim->note(strf("probe.K %d", (int)floor(10 * kicks.got / kicks.want)));
  sim->note("probe.hits", (size_t)hits.got);
  sim->note("probe.deflections", polar.v.size());
  if (pairs < 150) c.discard("too few collisions for a comparison");
  c.nontrivial(a.hash);
}
