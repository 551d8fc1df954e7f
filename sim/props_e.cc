// Properties about durability: checkpoints, restarts, dumps, and what happens when storage or memory fails.
#include "refmodel.hh"
#include <climits>

static i64 key_step(const std::string &k) {
  if (k.compare(0, 4, "inj.") == 0) return atoll(k.c_str() + 4);
  size_t p = k.rfind('.');
  return p == std::string::npos || !isdigit((u8)k[p + 1]) ? -1 : atoll(k.c_str() + p + 1);
}
// what the deck recorded about the simulated state (as opposed to what it was doing)
static bool state_key(const std::string &k) {
  for (const char *z : {"ckpt.", "dump.", "up.", "stop.", "turn", "load", "full", "hy", "hs", "poy", "tpx", "mod."})
    if (k.compare(0, strlen(z), z) == 0) return false;
  return true;
}
// the steps whose checkpoint every process completed, oldest first
static std::vector<i64> complete_checkpoints(const Exec &x) {
  std::map<i64, size_t> n;
  for (auto &r : x.r)
    for (auto &q : r.recs)
      if (q.key.compare(0, 5, "ckpt.") == 0) n[key_step(q.key)]++;
  std::vector<i64> v;
  for (auto &k : n)
    if (k.second == x.r.size()) v.push_back(k.first);
  return v;
}
// a continued run must repeat the uninterrupted one from the step after the checkpoint
static std::string continues(const Exec &ref, const Exec &x, i64 from, i64 last, bool tolast) {
  for (size_t r = 0; r < x.r.size(); r++) {
    std::map<std::string, const std::string *> want;
    for (auto &q : ref.r[r].recs)
      if (state_key(q.key)) want[q.key] = &q.data;
    size_t seen = 0;
    for (auto &q : x.r[r].recs) {
      if (!state_key(q.key)) continue;
      auto it = want.find(q.key);
      if (it == want.end()) return strf("rank %zu observed %s, which the uninterrupted run never did", r, q.key.c_str());
      if (*it->second != q.data) {
        size_t o = 0;
        while (o < q.data.size() && o < it->second->size() && q.data[o] == (*it->second)[o]) o++;
        return strf("rank %zu: %s differs from the uninterrupted run at byte %zu (sizes %zu, %zu) after continuing from step %lld", r, q.key.c_str(),
                    o, q.data.size(), it->second->size(), (long long)from);
      }
      if (key_step(q.key) > from) seen++;
    }
    if (tolast) {
      size_t w = 0;
      for (auto &q : want)
        if (key_step(q.first) > from) w++;
      if (seen != w)
        return strf("rank %zu: %zu observations after continuing from step %lld; the uninterrupted run made %zu", r, seen, (long long)from, w);
    }
  }
  (void)last;
  return "";
}
static ExecOpts ckpt_work(Ctx &c, Feat f) {
  ExecOpts o = work(c, f);
  seti(o, "recip", 1);
  seti(o, "recstate", 1);
  seti(o, "ckpt_barrier", 1);
  if (c.B("recrng", 0.5)) {
    seti(o, "recrng", 1);
    seti(o, "recrngn", 1);
  }
  if (c.B("recen", 0.3)) seti(o, "recen", 1);
  if (c.B("alt", 0.4)) seti(o, "ckpt_alt", 1);
  return o;
}
static std::string tag_of(const ExecOpts &o, i64 s) { return strf("ck.%lld", (long long)(ci(o, "ckpt_alt", 0) ? (s / ci(o, "ckpt", 1)) & 1 : s)); }
static void die_cleanly(Ctx &c, const Exec &x, const char *what) { // failed, but by reporting it
  if (x.deadlock || x.stepcap) c.fail(strf("%s: the job hangs instead of ending: ", what) + x.summary());
  for (size_t r = 0; r < x.r.size(); r++)
    if (x.r[r].st == E_CRASHED) c.fail(strf("%s: rank %zu crashed instead of reporting an error: ", what, r) + x.summary());
}
static ExecOpts restart_of(const ExecOpts &o, i64 s, u64 seed) {
  ExecOpts r = o;
  r.args.push_back("--restore");
  r.args.push_back(tag_of(o, s));
  r.kill_rank = -1;
  r.kill_at = -1;
  r.fsf.clear();
  r.pseed = seed;
  r.fill = o.fill ^ 0x33;
  return r;
}

// ------------------------------------------------------------------ C10 crash and restart
PROPERTY(C10, "distinct (workload, crash point, restart) histories in which a restarted run was compared bit by bit with the uninterrupted one",
         "ref", "v4sse", "v8avx2", "v16p", "v8omp", "refts") {
  Feat f;
  f.hole = true;
  f.maxtpp = 3;
  f.maxsteps = 8;
  f.minsteps = 3;
  if (has_preempt(c.lib)) {
    f.maxrank = 2;
    f.maxcell = 3;
    f.maxsteps = 5;
  }
  ExecOpts o = ckpt_work(c, f);
  seti(o, "ckpt", c.I("ckpt", 1, 3));
  if (c.B("dumps", 0.2)) seti(o, "dump", 4 | 16);
  if (c.B("late", 0.3)) seti(o, "late", c.I("lateat", 1, 6));
  o.pol = rpol(c, "pol", o.nrank, has_preempt(c.lib));
  Exec a = sim->run(o);
  must_succeed(c, a, "the uninterrupted run");
  FS full = std::move(sim->fs);
  sim->fs = FS();
  i64 last = ci(o, "nsteps", 3), at = -1;
  int ncrash = (int)c.I("ncrash", 1, 3);
  bool any = false;
  for (int i = 0; i <= ncrash; i++) {
    ExecOpts b = at < 0 ? o : restart_of(o, at, c.key(strf("rs%d", i)) >> 1);
    if (i) b.pol = rpol(c, strf("pol%d", i), o.nrank, has_preempt(c.lib));
    bool crash = i < ncrash;
    if (crash) {
      b.kill_rank = (int)c.U(strf("krank%d", i), o.nrank);
      u64 span = a.rank_points[b.kill_rank], lo = 0;
      if (at >= 0) span = span * (u64)(last - at + 1) / (u64)(last + 1);
      else if (c.B(strf("late%d", i), 0.9))
        lo = std::min(span - 1, span * (u64)(ci(o, "ckpt", 1) + 1) / (u64)(last + 1)); // after the first checkpoint
      b.kill_at = 1 + (i64)(lo + c.U(strf("kpoint%d", i), span - lo));
      b.pol.after = (int)c.P(strf("after%d", i), {0, 20, 400});
    }
    Exec x = sim->run(b);
    if (at >= 0) {
      any = true;
      sim->note("probe.restarts");
    }
    if (!crash || x.ok()) {
      must_succeed(c, x, "the run continued from a checkpoint");
      std::string d = continues(a, x, std::max<i64>(at, -1), last, true);
      if (!d.empty()) c.fail(d);
    } else {
      sim->note("probe.crashes");
      std::string d = continues(a, x, std::max<i64>(at, -1), last, false);
      if (!d.empty()) c.fail(d);
    }
    if (x.ok()) break;
    auto v = complete_checkpoints(x);
    if (!v.empty()) {
      i64 n = v.back();
      if (!ci(o, "ckpt_alt", 0) && v.size() > 1 && c.B(strf("older%d", i), 0.2)) n = v[c.U(strf("which%d", i), v.size())];
      at = n;
    }
  }
  if (any && ci(o, "dump", 0)) {
    std::string d = fs_difference(full, sim->fs, [&](const std::string &n) {
      size_t q = n.find('.');
      return n.compare(0, 3, "ck.") != 0 && q != std::string::npos && atoll(n.c_str() + q + 1) > at;
    });
    if (!d.empty()) c.fail("dumps written after a restart: " + d);
  }
  if (!any) c.discard("crashed before the first checkpoint");
  c.nontrivial(mix(a.hash, sim->evhash));
}

// ------------------------------------------------------------------ C11 damaged checkpoints
PROPERTY(C11, "distinct (workload, damage) pairs: restarts from a damaged or mismatched checkpoint that had to be refused", "ref", "v4sse", "v8omp") {
  Feat f;
  f.maxtpp = 3;
  f.maxsteps = 3;
  f.minsteps = 1;
  f.maxcell = 3;
  ExecOpts o = ckpt_work(c, f);
  seti(o, "ckpt", 1);
  o.cfg.erase("ckpt_alt");
  Exec a = sim->run(o);
  must_succeed(c, a, "the checkpointing run");
  i64 last = ci(o, "nsteps", 1);
  std::string base = tag_of(o, last);
  seti(o, "ckpt", 0);
  seti(o, "nsteps", last + 2);
  ExecOpts b = restart_of(o, last, c.key("rs") >> 1);
  b.pol = rpol(c, "pol", o.nrank, false);
  // the deck's step count is part of the checkpoint: extend the run so that a wrongly accepted restart shows itself
  auto ino = std::make_shared<Inode>();
  ino->data = strf("num_step %lld\n", (long long)last + 2);
  sim->fs.files["mods"] = ino;
  b.args.push_back("--modify");
  b.args.push_back("mods");
  int r = (int)c.U("victim", o.nrank);
  std::string fn = base + strf(".%d", r);
  if (!sim->fs.has(fn)) c.fail("checkpoint file " + fn + " does not exist");
  std::string &data = sim->fs.data(fn);
  size_t n = data.size();
  i64 kind = c.P("damage", {0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8});
  std::string what;
  bool strict = true;
  switch (kind) {
  case 0: {
    size_t k = c.B("tail", 0.4) ? n - 1 - c.U("cuttail", std::min<size_t>(n, 200)) : c.U("cut", n);
    data.resize(k);
    what = strf("a checkpoint truncated to %zu of %zu bytes", k, n);
    break;
  }
  case 1:
    sim->fs.files.erase(fn);
    what = "a missing checkpoint file";
    break;
  case 2: {
    FsFault z;
    z.kind = 'r';
    z.rank = r;
    z.path = fn;
    z.nth = (i64)c.U("nthread", 1 + n / 4096);
    z.sticky = c.B("sticky", 0.5);
    b.fsf.push_back(z);
    what = strf("a read error at block %lld", (long long)z.nth);
    break;
  }
  case 3: {
    FsFault z;
    z.kind = 'o';
    z.rank = r;
    z.path = fn;
    z.err = 13;
    b.fsf.push_back(z);
    what = "an unreadable checkpoint file";
    break;
  }
  case 4:
    if (o.nrank < 2) c.discard("one process");
    b.nrank = 1 + (int)c.U("fewer", o.nrank - 1);
    what = strf("a checkpoint of %d processes restored by %d", o.nrank, b.nrank);
    break;
  case 5:
    if (o.nrank > 7) c.discard("no room for more processes");
    b.nrank = std::min(8, o.nrank + 1 + (int)c.U("more", 2));
    what = strf("a checkpoint of %d processes restored by %d", o.nrank, b.nrank);
    break;
  case 6: {
    int t = atoi(b.args[1].c_str());
    int z = 1 + (int)c.U("tpp2", 4);
    if (z == t) z = t + 1;
    b.args[1] = std::to_string(z);
    what = strf("a checkpoint of %d threads restored with %d", t, z);
    break;
  }
  case 7:
    data.clear();
    what = "an empty checkpoint file";
    break;
  default: {
    size_t k = 9 + c.U("lost", n - 9);
    memset(&data[n - k], 0, k);
    what = strf("a checkpoint whose last %zu of %zu bytes were never written", k, n);
    strict = false;
  }
  }
  Exec x = sim->run(b);
  if (kind == 2 && !x.faults_fired) c.discard("the read error did not occur");
  for (size_t q = 0; q < x.r.size(); q++)
    for (auto &z : x.r[q].recs)
      if (key_step(z.key) > last) c.fail(strf("%s: rank %zu went on computing (%s)", what.c_str(), q, z.key.c_str()));
  if (x.ok()) c.fail(what + " was accepted");
  if (strict) die_cleanly(c, x, what.c_str());
  c.nontrivial(mix(x.hash, hash_bytes(what.data(), what.size())));
}

// ------------------------------------------------------------------ storage faults while writing
struct Site {
  int rank;
  char kind;
  std::string path;
  i64 nth;
};
static FsFault write_fault(Ctx &c, ExecOpts &o, const Exec &a, const std::function<bool(const std::string &)> &path, const std::string &kinds,
                           std::string &what) {
  std::map<std::string, i64> nth;
  std::vector<Site> sites;
  std::map<std::string, std::vector<Site>> by; // every kind of operation is equally likely
  for (auto &p : a.fsops) {
    if (!path(p.path) || kinds.find(p.kind) == std::string::npos) continue;
    i64 n = nth[strf("%d%c", p.rank, p.kind) + p.path]++;
    by[std::string(1, p.kind)].push_back(Site{p.rank, p.kind, p.path, n});
  }
  if (by.empty()) c.discard("nothing was written");
  std::vector<std::string> ks;
  for (auto &k : by) ks.push_back(k.first);
  auto &v = by[ks[c.U("fkind", ks.size())]];
  Site s = v[c.U("fsite", v.size())];
  FsFault z;
  z.kind = s.kind;
  z.rank = s.rank;
  z.path = s.path;
  z.nth = s.nth;
  z.err = (int)c.P("errno", {5, 28, 122});
  z.sticky = c.B("sticky", 0.4);
  z.partial = c.P("partial", {0, 1, 100, 2000});
  what = strf("%s error %d on %s (rank %d, operation %lld%s)",
              s.kind == 'w'   ? "write"
              : s.kind == 'o' ? "open"
              : s.kind == 'c' ? "close"
                              : "mkdir",
              z.err, s.path.c_str(), s.rank, (long long)s.nth, z.sticky ? " and later" : "");
  o.fsf.push_back(z);
  return z;
}

// ------------------------------------------------------------------ C12 checkpoint write failures
PROPERTY(C12,
         "distinct (workload, storage fault) pairs: faults while a checkpoint was written, each followed by a restart from the last complete one",
         "ref", "v4sse") {
  Feat f;
  f.maxtpp = 2;
  f.maxsteps = 6;
  f.minsteps = 2;
  f.maxcell = 3;
  ExecOpts o = ckpt_work(c, f);
  seti(o, "ckpt", c.I("ckpt", 1, 2));
  if (!c.B("noalt", 0.3)) seti(o, "ckpt_alt", 1);
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "the fault-free run");
  FS full = std::move(sim->fs);
  sim->fs = FS();
  ExecOpts b = o;
  std::string what;
  bool cap = c.B("full", 0.25);
  if (cap) {
    sim->fs.capacity = (i64)c.U("cap", full.used());
    what = strf("a disk of %lld bytes", (long long)sim->fs.capacity);
  } else write_fault(c, b, a, [](const std::string &p) { return p.compare(0, 3, "ck.") == 0; }, "owc", what);
  Exec x = sim->run(b);
  sim->fs.capacity = -1;
  if (!x.faults_fired) c.discard("the fault did not occur");
  if (x.ok()) {
    std::string d = fs_difference(full, sim->fs);
    if (d.empty()) {
      c.nontrivial(x.hash);
      return;
    }
    c.fail(what + ": the run reported success although " + d);
  }
  die_cleanly(c, x, what.c_str());
  std::string d = continues(a, x, -1, 0, false);
  if (!d.empty()) c.fail(what + ": " + d);
  bool said = false;
  for (auto &r : x.r)
    if (r.st == E_EXITED && r.code != 0 && !r.log.empty()) said = true;
  if (!said) c.fail(what + " was not reported by any process: " + x.summary());
  auto v = complete_checkpoints(x);
  if (v.empty()) {
    c.nontrivial(x.hash);
    return;
  } // nothing to go back to yet
  ExecOpts y = restart_of(o, v.back(), c.key("rs") >> 1);
  y.pol = rpol(c, "pol2", o.nrank, false);
  Exec z = sim->run(y);
  must_succeed(c, z, strf("after %s, the restart from the earlier checkpoint of step %lld", what.c_str(), (long long)v.back()).c_str());
  d = continues(a, z, v.back(), 0, true);
  if (!d.empty()) c.fail(d);
  sim->note("probe.recovered");
  c.nontrivial(mix(x.hash, z.hash));
}

// ------------------------------------------------------------------ C15 dump write failures
PROPERTY(
    C15,
    "distinct (workload, storage fault) pairs: faults while output files were written, each of which had to be reported or to leave the files intact",
    "ref") {
  Feat f;
  f.maxtpp = 2;
  f.maxsteps = 3;
  f.minsteps = 1;
  f.maxcell = 3;
  f.maxrank = 6;
  ExecOpts o = work(c, f);
  seti(o, "dump", c.P("dump", {127, 1, 2, 4, 8, 16, 96}));
  seti(o, "dumpint", c.I("dumpint", 1, 2));
  seti(o, "dfmt", c.I("dfmt", 0, 1));
  setd(o, "fvars", c.P("fvars", {0xffff, 0x77, 0xffffff}));
  o.pol = rpol(c, "pol", o.nrank, false);
  o.pol.p_short = 0;
  Exec a = sim->run(o);
  must_succeed(c, a, "the fault-free run");
  FS full = std::move(sim->fs);
  sim->fs = FS();
  ExecOpts b = o;
  std::string what;
  if (c.B("full", 0.2)) {
    sim->fs.capacity = (i64)c.U("cap", full.used());
    what = strf("a disk of %lld bytes", (long long)sim->fs.capacity);
  } else write_fault(c, b, a, [](const std::string &) { return true; }, "owcm", what);
  Exec x = sim->run(b);
  sim->fs.capacity = -1;
  if (!x.faults_fired) c.discard("the fault did not occur");
  if (x.ok()) {
    std::string d = fs_difference(full, sim->fs, [](const std::string &n) { return n != "rundata"; });
    if (!d.empty()) c.fail(what + ": the run reported success although " + d);
    sim->note("probe.harmless");
  } else {
    die_cleanly(c, x, what.c_str());
    bool said = false;
    for (auto &r : x.r)
      if (r.st == E_EXITED && r.code != 0 && !r.log.empty()) said = true;
    if (!said) c.fail(what + " was not reported by any process: " + x.summary());
    sim->note("probe.reported");
  }
  c.nontrivial(mix(x.hash, hash_bytes(what.data(), what.size())));
}

// ------------------------------------------------------------------ C16 observing does not change the run
PROPERTY(C16, "distinct (workload, set of diagnostics) pairs whose evolution was compared bit by bit with the unobserved run", "ref", "v4sse",
         "v8avx2", "v16p", "v8omp", "refts") {
  Feat f;
  f.hole = true;
  f.maxtpp = 3;
  f.maxsteps = 6;
  f.big = 0.004;
  if (has_preempt(c.lib)) {
    f.maxrank = 2;
    f.maxcell = 3;
    f.maxsteps = 4;
    f.big = 0;
  }
  ExecOpts o = work(c, f);
  seti(o, "recip", 1);
  if (c.B("recrng", 0.4)) seti(o, "recrng", 2);
  Exec a = sim->run(o);
  must_succeed(c, a, "the unobserved run");
  sim->fs = FS();
  ExecOpts p = o;
  p.pol = rpol(c, "pol", o.nrank, has_preempt(c.lib));
  i64 d = c.I("dumpset", 0, 127);
  if (d & 32) d |= 64;
  if (d) {
    seti(p, "dump", d);
    seti(p, "dumpint", c.I("dumpint", 1, 3));
    seti(p, "dfmt", c.I("dfmt", 0, 1));
  }
  if (c.B("ck", 0.4)) seti(p, "ckpt", c.I("ckpt", 1, 3));
  if (c.B("en", 0.4)) seti(p, "recen", 1);
  if (c.B("poyn", 0.3) && ci(o, "ny", 4) / ci(o, "py", 1) >= 2 && ci(o, "nz", 4) / ci(o, "pz", 1) >= 2) seti(p, "poy", 1);
  if (c.B("stat", 0.4)) seti(p, "status", c.I("status", 1, 3));
  if (c.B("upt", 0.3)) seti(p, "uptime", 1);
  if (c.B("turns", 0.3)) seti(p, "turn", c.I("turn", 1, 3));
  if (c.B("mpx", 0.2)) seti(p, "mpx", 1);
  if (c.B("tpxx", 0.2)) seti(p, "tpx", 3);
  Exec b = sim->run(p);
  must_succeed(c, b, "the observed run");
  std::string e = first_difference(a, b, [](const std::string &k) { return state_key(k) && k.compare(0, 3, "en.") && k.compare(0, 3, "mpx"); });
  if (!e.empty()) c.fail("diagnostics changed the evolution: " + e);
  c.nontrivial(b.hash);
}

// ------------------------------------------------------------------ C22 allocation failures
PROPERTY(C22, "distinct (workload, failing allocation) pairs", "ref", "v4sse") {
  Feat f;
  f.maxtpp = 3;
  f.maxsteps = 4;
  f.maxcell = 3;
  f.maxrank = 4;
  f.uneven = 0; // strided dumps
  ExecOpts o = work(c, f);
  if (c.B("dumps", 0.3)) { seti(o, "dump", 127); }
  if (c.B("ck", 0.3)) seti(o, "ckpt", 1);
  o.pol = rpol(c, "pol", o.nrank, false);
  Exec a = sim->run(o);
  must_succeed(c, a, "the run with enough memory");
  FS full = std::move(sim->fs);
  sim->fs = FS();
  ExecOpts b = o;
  b.oom_rank = (int)c.U("orank", o.nrank);
  b.oom_at = (i64)c.U("oat", a.rank_mallocs[b.oom_rank]);
  b.oom_sticky = c.B("osticky", 0.5);
  std::string what = strf("allocation %lld of rank %d failed%s", (long long)b.oom_at, b.oom_rank, b.oom_sticky ? " (and all later ones)" : "");
  Exec x = sim->run(b);
  if (!x.faults_fired) c.discard("the allocation did not happen");
  if (x.ok()) {
    std::string d = first_difference(a, x);
    if (d.empty()) d = fs_difference(full, sim->fs);
    if (!d.empty()) c.fail(what + ": the run reported success although " + d);
    sim->note("probe.harmless");
  } else {
    die_cleanly(c, x, what.c_str());
    sim->note("probe.reported");
  }
  c.nontrivial(mix(x.hash, (u64)b.oom_at));
}
