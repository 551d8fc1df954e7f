// Properties about schedules: results, progress and agreement must not depend on timing.
#include "props.hh"
#include <algorithm>
static void same_end(Ctx &c, const Exec &a, const Exec &b, const char *what) {
  std::string d = first_difference(a, b);
  if (!d.empty()) c.fail(std::string(what) + ": " + d);
}

PROPERTY(C01,
         "distinct perturbed schedules (hash of the executed event sequence) whose complete recorded history was compared with the canonical "
         "schedule of the same workload",
         "ref", "v4sse", "v8omp") {
  Feat f;
  f.maxtpp = 2;
  f.heavy = c.tier > 0;
  ExecOpts o = work(c, f);
  if (c.B("mpx", 0.3)) seti(o, "mpx", 1);
  if (c.B("recrng", 0.3)) seti(o, "recrng", 2);
  if (c.B("recen", 0.2)) seti(o, "recen", 1);
  if (c.B("dumps", 0.15)) seti(o, "dump", 1 | 2 | 4 | 8 | 16);
  Exec a = sim->run(o);
  must_succeed(c, a, "the run under the canonical schedule");
  FS fa = std::move(sim->fs);
  sim->fs = FS();
  ExecOpts p = o;
  p.pol = rpol(c, "pol", o.nrank, false);
  p.fill = o.fill ^ 0xa5;
  Exec b = sim->run(p);
  must_succeed(c, b, "the run under a perturbed schedule");
  same_end(c, a, b, "message and process timing changed the results");
  std::string d = fs_difference(fa, sim->fs);
  if (!d.empty()) c.fail("message and process timing changed the files written: " + d);
  c.nontrivial(b.hash);
}
PROPERTY(C02,
         "distinct thread interleavings (hash of the executed event sequence, with at least one forced preemption or thread switch) compared with "
         "the canonical schedule",
         "refts", "ssets", "ompts", "ref") {
  Feat f;
  f.maxrank = 2;
  f.maxtpp = 5;
  f.maxsteps = 4;
  f.maxcell = 5;
  f.heavy = true;
  ExecOpts o = work(c, f);
  if (c.B("host0", 0.25) && c.lib != "ompts") {
    o.args.push_back("--dispatch_to_host");
    o.args.push_back("0");
  }
  if (c.B("recen", 0.3)) seti(o, "recen", 1);
  if (c.B("recrng", 0.3)) seti(o, "recrng", 2);
  if (c.B("hyd", 0.3)) { seti(o, "dump", 8); }
  Exec a = sim->run(o);
  must_succeed(c, a, "the run under the canonical thread schedule");
  FS fa = std::move(sim->fs);
  sim->fs = FS();
  ExecOpts p = o;
  p.pol = rpol(c, "pol", o.nrank, true);
  p.fill = o.fill ^ 0xa5;
  Exec b = sim->run(p);
  must_succeed(c, b, "the run under a perturbed thread schedule");
  same_end(c, a, b, "thread timing changed the results");
  std::string d = fs_difference(fa, sim->fs);
  if (!d.empty()) c.fail("thread timing changed the files written: " + d);
  if (b.switches || b.preempts) c.nontrivial(b.hash);
}
PROPERTY(C03, "distinct executions (event-sequence hash) that had to complete cleanly within the step bound under an adversarial schedule", "ref",
         "v4sse", "refomp", "v16p") {
  Feat f;
  f.hole = true;
  f.maxtpp = 4;
  f.heavy = c.tier > 0;
  f.minsteps = 1;
  f.maxsteps = 8;
  ExecOpts o = work(c, f);
  if (c.lib != "refomp" && c.B("host0", 0.2)) {
    o.args.push_back("--dispatch_to_host");
    o.args.push_back("0");
  }
  seti(o, "yield", 1);
  seti(o, "status", c.P("status", {0, 1, 3}));
  if (c.B("mpx", 0.4)) seti(o, "mpx", 1);
  if (c.B("recen", 0.3)) seti(o, "recen", 1);
  if (c.B("dump", 0.3)) {
    seti(o, "dump", 1 | 2 | 4 | 8 | 16 | 32 | 64);
    seti(o, "turn", c.P("turn", {0, 1, 2, 3}));
  }
  if (c.B("ckpt", 0.3)) seti(o, "ckpt", c.I("ckpti", 1, 3));
  if (c.B("empty_ion", 0.15)) seti(o, "empty_ion", 1);
  if (c.B("noload", 0.08)) seti(o, "noload", 1);
  o.pol = rpol(c, "pol", o.nrank, false);
  o.max_points = 6000000;
  Exec a = sim->run(o);
  must_succeed(c, a, "a fault-free run");
  i64 ns = ci(o, "nsteps", 4);
  for (int r = 0; r < o.nrank; r++) {
    if (!a.rec(r, strf("n0.%lld", (long long)ns))) c.fail(strf("rank %d finished without reaching step %lld", r, (long long)ns));
    if (a.rec(r, strf("n0.%lld", (long long)ns + 1))) c.fail(strf("rank %d went past the last step", r));
    if (!a.r[r].finalized) c.fail(strf("rank %d ended without shutting the message layer down", r));
  }
  c.nontrivial(a.hash);
}
PROPERTY(C17, "distinct thread interleavings in which every job of every parallel region was accounted for", "refts", "ompts", "ref", "refomp") {
  Feat f;
  f.maxrank = 2;
  f.maxtpp = 8;
  f.maxsteps = 2;
  f.minsteps = 1;
  f.rng = false;
  f.resize = false;
  ExecOpts o = work(c, f);
  seti(o, "ppc", 1);
  seti(o, "tpx", c.I("tpxr", 1, 6));
  seti(o, "tpxwork", c.P("tpxw", {3, 0, 1, 9}));
  bool omp = c.lib == "ompts" || c.lib == "refomp";
  int tpp = atoi(o.args[1].c_str());
  bool host = true;
  if (!omp && c.B("host0", 0.4)) {
    host = false;
    o.args.push_back("--dispatch_to_host");
    o.args.push_back("0");
  }
  if (!host && tpp < 1) c.discard("no worker");
  bool own = !omp && c.B("own", 0.3), ser = !omp && c.B("serial", 0.2);
  int nser = ser ? (int)c.I("nserial", 1, 6) : 1;
  if (own) seti(o, "tpxown", 1);
  if (ser) {
    seti(o, "tpxser", 1);
    o.args.push_back("--serial.n_pipeline");
    o.args.push_back(std::to_string(nser));
  }
  const int rounds = (int)ci(o, "tpx", 1);
  o.pol = rpol(c, "pol", o.nrank, true);
  if (c.B("spur", 0.5)) o.pol.p_spur = 0.5;
  Exec a = sim->run(o);
  must_succeed(c, a, "a run using parallel regions");
  static const int in[7] = {3, 1, 4, 1, 5, 9, 2};
  int work = (int)ci(o, "tpxwork", 3);
  bool any = false;
  for (int r = 0; r < o.nrank; r++)
    for (i64 s = 0; s <= ci(o, "nsteps", 1); s++) {
      const std::string *d = a.rec(r, strf("tpx.%lld", (long long)s));
      if (!d) c.fail("a parallel region was skipped");
      const int *v = (const int *)d->data(), *e = v + d->size() / 4;
      int round = 0;
      while (v < e) {
        int n = *v++, bad = *v++, how = round < rounds ? 0 : round < 2 * rounds && own ? 1 : 2;
        any = true;
        if (n != (how == 2 ? nser : tpp)) c.fail(strf("%d threads asked for, %d used", how == 2 ? nser : tpp, n));
        if (bad) c.fail("a job was given a wrong rank or count");
        for (int i = 0; i <= n; i++, v += 3) {
          int want = 0;
          for (int q = 0; q < work; q++) want += in[q % 7] + i + (how ? 10 * i : 0);
          if (v[0] != 1) c.fail(strf("rank %d step %lld region %d: job %d of %d ran %d times", r, (long long)s, round, i, n, v[0]));
          if (!v[1]) c.fail(strf("rank %d step %lld region %d: the wait returned before job %d had finished", r, (long long)s, round, i));
          if (v[2] != want)
            c.fail(strf("rank %d step %lld region %d: job %d saw wrong arguments or was cut short (%d, expected %d)", r, (long long)s, round, i, v[2],
                        want));
        }
        round++;
      }
    }
  if (any) c.nontrivial(a.hash);
}
static u64 hsh(u64 x, u64 b) { // as in the deck
  u64 z = x * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
PROPERTY(C18, "distinct schedules in which turnstile entries and exits were observed", "ref") {
  Feat f;
  f.minrank = 2;
  f.maxsteps = 3;
  f.minsteps = 1;
  f.threads = false;
  f.rng = false;
  ExecOpts o = work(c, f);
  seti(o, "ppc", 1);
  int n = (int)c.I("turn", 1, 4);
  seti(o, "dump", 4 | 16);
  seti(o, "turn", n);
  seti(o, "turns", c.I("turns", 0, 3));
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "a run writing through a turnstile");
  int in = 0, peak = 0;
  std::vector<int> inside(o.nrank), count(o.nrank);
  std::map<int, std::vector<int>> st; // per turnstile: 0 not entered, 1 inside, 2 left
  for (auto &m : a.marks)
    if (m.second >= 10000) {
      int id = (m.second - 10000) / 2, wd = 1 + (int)(hsh(ci(o, "wseed", 1), 5000 + id) % 4);
      auto &v = st[id];
      v.resize(o.nrank);
      if (v[m.first] != m.second % 2) c.fail(strf("rank %d passed turnstile %d twice", m.first, id));
      v[m.first]++;
      int k = (int)std::count(v.begin(), v.end(), 1);
      if (k > wd) c.fail(strf("%d processes inside turnstile %d of width %d at the same time, rank %d the last to enter", k, id, wd, m.first));
    }
  if ((i64)st.size() != ci(o, "turns", 0) * (ci(o, "nsteps", 1) + 1)) c.fail("a turnstile was not passed");
  for (auto &v : st)
    if (std::count(v.second.begin(), v.second.end(), 2) != o.nrank) c.fail(strf("not every process passed turnstile %d", v.first));
  for (auto &m : a.marks) {
    if (m.second >= 10000) continue;
    if (m.second == 1) {
      if (inside[m.first]++) c.fail(strf("rank %d entered the turnstile twice", m.first));
      in++;
      count[m.first]++;
      peak = std::max(peak, in);
      if (in > n) {
        std::string who;
        for (int r = 0; r < o.nrank; r++)
          if (inside[r]) who += strf(" %d", r);
        c.fail(strf("%d processes inside a turnstile of width %d at the same time:%s", in, n, who.c_str()));
      }
    } else {
      inside[m.first]--;
      in--;
    }
  }
  for (int r = 0; r < o.nrank; r++)
    if (count[r] != ci(o, "nsteps", 1) + 1)
      c.fail(strf("rank %d passed the turnstile %d times, expected %lld", r, count[r], (long long)ci(o, "nsteps", 1) + 1));
  sim->note(strf("probe.turnstile_peak_%d_of_%d", peak, n));
  if (peak > 0) c.nontrivial(a.hash);
}
PROPERTY(C19, "distinct executions under skewed, drifting or jumping clocks in which every rank's view of elapsed time was compared", "ref") {
  Feat f;
  f.minrank = 2;
  f.maxsteps = 12;
  f.minsteps = 4;
  f.threads = false;
  f.rng = false;
  ExecOpts o = work(c, f);
  seti(o, "ppc", 1);
  seti(o, "rec", 0);
  seti(o, "uptime", 1);
  seti(o, "yield", 1);
  double tot = 0;
  for (int r = 0; r < o.nrank; r++) {
    ClockModel m;
    m.offset_ns = c.P(strf("off%d", r), {0, 1000000000, -3600000000000ll, 86400000000000ll, 12345678});
    m.rate = c.D(strf("rate%d", r), {1, 1.5, 0.5, 1.001, 3});
    if (c.B(strf("jump%d", r), 0.3))
      m.jumps.push_back({c.P(strf("jt%d", r), {10000, 100000, 1000000}), c.P(strf("jd%d", r), {1000000000, 60000000000ll, 3000000})});
    o.clocks.push_back(m);
  }
  (void)tot;
  o.pol = rpol(c, "pol", o.nrank, false);
  int q = (int)c.I("quotak", 0, 3);
  if (q) {
    seti(o, "quota_stop", 1);
    setd(o, "quota", q == 1 ? c.D("quotav", {1e-4, 1e-3, 1e-2}) : q == 2 ? 2.0 : 1e9);
  }
  Exec a = sim->run(o);
  must_succeed(c, a, "a run under skewed clocks");
  double last = -1;
  i64 stop = -1, end = ci(o, "nsteps", 4);
  for (i64 s = 0; s <= end; s++) {
    const std::string *z = a.rec(0, strf("up.%lld", (long long)s));
    for (int r = 1; r < o.nrank; r++) {
      const std::string *w = a.rec(r, strf("up.%lld", (long long)s));
      if (!z != !w) c.fail(strf("rank %d and rank 0 disagree about whether step %lld was reached before the quota", r, (long long)s));
      if (z && *z != *w)
        c.fail(
            strf("step %lld: rank %d sees uptime %.9g, rank 0 sees %.9g", (long long)s, r, *(const double *)w->data(), *(const double *)z->data()));
    }
    if (z) {
      double u = *(const double *)z->data();
      if (!(u >= last)) c.fail(strf("uptime went from %.9g to %.9g", last, u));
      if (u < 0) c.fail("uptime is negative");
      last = u;
    }
    const std::string *st = a.rec(0, strf("stop.%lld", (long long)s));
    for (int r = 1; r < o.nrank; r++) {
      const std::string *w = a.rec(r, strf("stop.%lld", (long long)s));
      if (!st != !w || (st && *st != *w)) c.fail(strf("rank %d and rank 0 took different quota decisions at step %lld", r, (long long)s));
    }
    if (st && (*st)[0]) {
      if (stop < 0) stop = s;
      else c.fail("the run went on after the quota was reached");
    }
  }
  // uptime is the mean of the processes' clocks: it cannot exceed what they have shown on average
  if (last >= 0) {
    double lim = 0;
    for (auto &k : o.clocks) {
      lim += (a.end_ns - a.start_ns) * 1e-9 * k.rate;
      for (auto &j : k.jumps) lim += j.second * 1e-9;
    }
    lim /= o.nrank;
    if (last > lim * (1 + 1e-9) + 1e-6) c.fail(strf("uptime %.9g s exceeds what the clocks of the processes can have shown (%.9g s)", last, lim));
  }
  if (q) sim->note(stop >= 0 ? "probe.quota_stops" : "probe.quota_not_reached");
  c.nontrivial(a.hash);
}
PROPERTY(C20, "distinct (workload, layout) pairs whose random streams were compared between ranks, seeds and schedules", "ref") {
  Feat f;
  f.maxsteps = 3;
  f.minsteps = 1;
  f.maxtpp = 6;
  f.coll = true;
  ExecOpts o = work(c, f);
  seti(o, "recrng", 1);
  seti(o, "recrngn", 1);
  seti(o, "rec", 0);
  if (c.B("rngx", 0.2)) seti(o, "rngx", c.I("rngseed", 1, 2000000000));
  Exec a = sim->run(o);
  must_succeed(c, a, "a run");
  for (auto &r : a.r)
    for (auto &q : r.recs)
      if (q.key == "rngx.0" && !q.data.empty()) c.fail(q.data);
  ExecOpts p = o;
  p.pol = rpol(c, "pol", o.nrank, false);
  p.fill = o.fill ^ 0x3c;
  Exec b = sim->run(p);
  must_succeed(c, b, "a run under another schedule");
  same_end(c, a, b, "random streams depend on timing or memory contents");
  ExecOpts q = o;
  seti(q, "useed", ci(o, "useed", 1) + c.I("dseed", 1, 50));
  Exec d = sim->run(q);
  must_succeed(c, d, "a run with another seed");
  i64 ns = ci(o, "nsteps", 1);
  for (i64 s = 0; s <= ns; s++) {
    std::map<double, std::pair<int, int>> seen, other;
    const std::string *s0 = a.rec(0, strf("rngs.%lld", (long long)s));
    for (int r = 0; r < o.nrank; r++) {
      const std::string *l = a.rec(r, strf("rngl.%lld", (long long)s)), *y = a.rec(r, strf("rngs.%lld", (long long)s)),
                        *dl = d.rec(r, strf("rngl.%lld", (long long)s));
      if (!l || !y || !s0 || !dl) c.fail("streams missing");
      if (*y != *s0) c.fail(strf("step %lld: the synchronised generators of rank %d differ from rank 0's", (long long)s, r));
      size_t n = l->size() / 16;
      const double *v = (const double *)l->data(), *w = (const double *)dl->data();
      if (y->size() < 2 * 8) c.fail("no synchronised generators");
      if (n < (size_t)atoi(o.args[1].c_str())) c.fail(strf("%zu generators for %s threads", n, o.args[1].c_str()));
      for (size_t i = 0; i < n; i++) {
        double u = v[2 * i];
        if (!(u > 0 && u < 1) || !(v[2 * i + 1] > 0 && v[2 * i + 1] < 1))
          c.fail(strf("generator %zu of rank %d returned %.17g, %.9g, outside (0,1)", i, r, u, v[2 * i + 1]));
        auto it = seen.find(u);
        if (it != seen.end())
          c.fail(strf("step %lld: generator %zu of rank %d and generator %d of rank %d produce the same stream", (long long)s, i, r,
                      it->second.second, it->second.first));
        seen[u] = {r, (int)i};
        if (u == w[2 * i]) c.fail(strf("generator %zu of rank %d does not depend on the seed", i, r));
        it = other.find(w[2 * i]);
        if (it != other.end())
          c.fail(strf("step %lld, other seed: generator %zu of rank %d and generator %d of rank %d produce the same stream", (long long)s, i, r,
                      it->second.second, it->second.first));
        other[w[2 * i]] = {r, (int)i};
      }
      const double *sv = (const double *)y->data();
      for (size_t i = 0; i < n; i++) {
        if (seen.count(sv[2 * i])) c.fail("a synchronised generator repeats a local one");
        for (size_t k = 0; k < i; k++)
          if (sv[2 * i] == sv[2 * k]) c.fail(strf("synchronised generators %zu and %zu produce the same stream", i, k));
      }
    }
    for (auto &u : seen) {
      auto it = other.find(u.first);
      if (it != other.end())
        c.fail(strf("step %lld: generator %d of rank %d with one seed and generator %d of rank %d with another produce the same stream", (long long)s,
                    u.second.second, u.second.first, it->second.second, it->second.first));
    }
  }
  c.nontrivial(mix(a.hash, b.hash));
}
PROPERTY(C23, "distinct schedules in which the results of collective operations were compared with their definition", "ref") {
  Feat f;
  f.maxsteps = 6;
  f.minsteps = 1;
  f.maxcell = 2;
  f.threads = false;
  f.rng = false;
  f.inj = false;
  ExecOpts o = work(c, f);
  seti(o, "ppc", 1);
  seti(o, "rec", 0);
  seti(o, "mpx", 1);
  o.pol = rpol(c, "pol", o.nrank, false);
  if (o.pol.p_clat == 0) o.pol.p_clat = 0.5;
  Exec a = sim->run(o);
  must_succeed(c, a, "a run exchanging collective messages");
  i64 seed = ci(o, "wseed", 1);
  int P = o.nrank;
  for (i64 s = 0; s <= ci(o, "nsteps", 1); s++) {
    int n = 1 + (int)(hsh(seed, s) % 5);
    std::vector<std::vector<i64>> A(P), I(P);
    for (int r = 0; r < P; r++)
      for (int i = 0; i < n; i++) {
        A[r].push_back(hsh(r + 31, s * 8 + i) % 1000);
        I[r].push_back(hsh(r + 77, s * 8 + i) % 1000);
      }
    for (int r = 0; r < P; r++) {
      auto *d = a.rec(r, strf("mpx.d.%lld", (long long)s)), *ii = a.rec(r, strf("mpx.i.%lld", (long long)s)),
           *g = a.rec(r, strf("mpx.g.%lld", (long long)s)), *l = a.rec(r, strf("mpx.l.%lld", (long long)s)),
           *u = a.rec(r, strf("mpx.u.%lld", (long long)s));
      if (!d || !ii || !g || !l || (!u && r == 0)) c.fail("a collective operation did not complete");
      for (int i = 0; i < n; i++) {
        i64 sd = 0, si = 0;
        for (int q = 0; q < P; q++) {
          sd += A[q][i];
          si += I[q][i];
        }
        if (((const double *)d->data())[i] != (double)sd)
          c.fail(strf("step %lld rank %d: sum of doubles %g, expected %lld", (long long)s, r, ((const double *)d->data())[i], (long long)sd));
        if (((const int *)ii->data())[i] != si)
          c.fail(strf("step %lld rank %d: sum of integers %d, expected %lld", (long long)s, r, ((const int *)ii->data())[i], (long long)si));
        for (int q = 0; q < P; q++) {
          if (((const int *)g->data())[q * n + i] != I[q][i])
            c.fail(strf("step %lld rank %d: gathered integer %d of rank %d is wrong", (long long)s, r, i, q));
          if (((const int64_t *)l->data())[q * n + i] != (I[q][i] << 33) + q)
            c.fail(strf("step %lld rank %d: gathered 64-bit integer %d of rank %d is wrong", (long long)s, r, i, q));
          if (r == 0 && ((const u8 *)u->data())[q * n + i] != (u8)(I[q][i] * 3))
            c.fail(strf("step %lld: gathered byte %d of rank %d is wrong", (long long)s, i, q));
        }
      }
      for (int q = 0; q < 3; q++)
        for (int p = 0; p < 3; p++) {
          int from = (r + P * 4 - 1 - p) % P;
          auto *b = a.rec(r, strf("mpx.p.%lld.%d.%d", (long long)s, q, p));
          size_t want = 1 + hsh(seed, 1000 + (((s * 4 + q) * 4 + p) * 16 + from)) % 300;
          if (!b || b->size() != want) c.fail("a message did not arrive");
          for (size_t i = 0; i < want; i++)
            if ((*b)[i] != (char)hsh(from * 8 + p, (s * 4 + q) * 512 + i))
              c.fail(strf("step %lld rank %d: byte %zu of the message of %zu bytes from rank %d on port %d is not what was put in the send buffer",
                          (long long)s, r, i, want, from, p));
        }
    }
  }
  std::map<i64, int> before;
  for (auto &m : a.marks) {
    if (m.second < 1000) continue;
    i64 s = (m.second - 1000) / 2;
    if (m.second % 2 == 0) before[s]++;
    else if (before[s] != P)
      c.fail(strf("step %lld: rank %d left a barrier that only %d of %d processes had reached", (long long)s, m.first, before[s], P));
  }
  for (i64 s = 0; s <= ci(o, "nsteps", 1); s++)
    if (before[s] != P) c.fail("a barrier was not passed");
  c.nontrivial(a.hash);
}
PROPERTY(C26, "distinct override files applied to a run or a restart, with every rank's effective settings compared with the file", "ref") {
  Feat f;
  f.maxsteps = 5;
  f.minsteps = 2;
  f.threads = false;
  f.rng = false;
  ExecOpts o = work(c, f);
  seti(o, "ppc", 1);
  seti(o, "modify_probe", 1);
  o.pol = rpol(c, "pol", o.nrank, false);
  struct K {
    const char *n;
    int idx;
    bool dbl;
    int lo;
  };
  static const K ks[] = {{"quota", 0, true, 0},           {"num_step", 1, false, 0},       {"checkpt_interval", 2, false, 1},
                         {"hydro_interval", 3, false, 1}, {"field_interval", 4, false, 1}, {"particle_interval", 5, false, 1}};
  i64 ns = ci(o, "nsteps", 3);
  bool restart = c.B("restart", 0.4);
  i64 at = 0;
  if (restart) {
    seti(o, "ckpt", 1);
    Exec z = sim->run(o);
    must_succeed(c, z, "the checkpointing run");
    at = c.I("at", 1, ns);
    o.args.push_back("--restore");
    o.args.push_back(strf("ck.%lld", (long long)at));
    seti(o, "ckpt", 0);
    seti(o, "recgeom", 0);
  }
  std::string text;
  double val[8];
  bool set[8] = {0};
  int n = (int)c.I("nlines", 0, 5);
  for (int i = 0; i < n; i++) {
    const K &k = ks[c.I(strf("key%d", i), 0, 5)];
    double v = k.idx == 1 ? (double)c.I(strf("ns%d", i), at, at + 5)
               : k.dbl    ? c.D(strf("dv%d", i), {2.5, 1e-3, 7e5})
                          : (double)c.P(strf("iv%d", i), {3, 0, -2, 100, 123456789});
    if (k.idx == 1 && v == 0) v = 1;
    text += strf(k.dbl ? "%s%s%.6g%s" : "%s%s%.0f%s", k.n,
                 c.B(strf("tab%d", i), 0.2)      ? "\t "
                 : c.B(strf("column%d", i), 0.3) ? std::string((size_t)c.I(strf("width%d", i), 2, 90), ' ').c_str()
                                                 : " ",
                 v,
                 i == n - 1 && c.B("noeol", 0.2) ? ""
                 : c.B(strf("crlf%d", i), 0.15)  ? "\r\n"
                 : c.B(strf("trail%d", i), 0.2)  ? "   as asked by the operator\n"
                                                 : "\n");
    val[k.idx] = k.lo && v < 0 ? 0 : v;
    set[k.idx] = true;
    if (c.B(strf("junk%d", i), 0.2)) text += c.B(strf("blank%d", i), 0.5) ? "\n   \n\n" : "# a comment\nunknown_thing 7\n";
  }
  auto ino = std::make_shared<Inode>();
  ino->data = text;
  sim->fs.files["mods"] = ino;
  ExecOpts p = o;
  p.args.push_back("--modify");
  p.args.push_back("mods");
  if (c.B("missing", 0.12)) {
    sim->fs.files.erase("mods");
    Exec b = sim->run(p);
    if (b.ok()) c.fail("a missing override file was ignored");
    c.nontrivial(b.hash);
    return;
  }
  if (text.size() && c.B("unreadable", 0.12)) {
    FsFault z;
    z.kind = 'r';
    z.rank = (int)c.U("badreader", o.nrank);
    z.path = "mods";
    z.nth = 0;
    z.err = 5;
    z.sticky = true;
    p.fsf.push_back(z);
    Exec b = sim->run(p);
    if (!b.faults_fired) c.discard("the read error did not occur");
    if (b.ok()) c.fail("an override file that could not be read was ignored");
    if (b.deadlock || b.stepcap) c.fail("the job hangs when the override file cannot be read: " + b.summary());
    for (auto &r : b.r)
      if (r.st == E_CRASHED) c.fail("a process crashes when the override file cannot be read: " + b.summary());
    sim->note("probe.unreadable_overrides");
    c.nontrivial(b.hash);
    return;
  }
  Exec b = sim->run(p);
  must_succeed(c, b, "a run with an override file");
  i64 last = set[1] ? (i64)val[1] : ns;
  for (int r = 0; r < o.nrank; r++)
    for (i64 s = at + 1; s <= last; s++) {
      auto *m = b.rec(r, strf("mod.%lld", (long long)s));
      if (!m) c.fail(strf("rank %d did not run step %lld although %lld steps were asked for", r, (long long)s, (long long)last));
      const double *v = (const double *)m->data();
      double dflt[8] = {11, (double)ns, 0, 0, 0, 0};
      for (int k = 0; k < 6; k++) {
        double want = set[k] ? val[k] : dflt[k];
        if (fabs(v[k] - want) > 1e-9 * fabs(want)) c.fail(strf("rank %d step %lld: %s is %.9g, expected %.9g", r, (long long)s, ks[k].n, v[k], want));
      }
    }
  for (int r = 0; r < o.nrank; r++) {
    i64 cap = std::max(last, at);
    if (b.rec(r, strf("mod.%lld", (long long)cap + 1))) c.fail(strf("rank %d ran past the overridden last step %lld", r, (long long)last));
  }
  c.nontrivial(mix(b.hash, hash_bytes(text.data(), text.size())));
}
