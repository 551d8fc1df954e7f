// C14: what the dump files say is what the simulation held.
#include "refmodel.hh"
#include <sstream>

struct Cursor {
  const Ctx &c;
  std::string name;
  const std::string &d;
  size_t p = 0;
  Cursor(const Ctx &cc, const std::string &n, const std::string &s) : c(cc), name(n), d(s) {}
  const char *raw(size_t n) {
    if (p + n > d.size()) c.fail(strf("file %s ends after %zu bytes where more data is due at byte %zu", name.c_str(), d.size(), p));
    p += n;
    return d.data() + p - n;
  }
  template <class T> T get() {
    T v;
    memcpy(&v, raw(sizeof v), sizeof v);
    return v;
  }
  template <class T> void want(T v, const char *what) {
    T g = get<T>();
    if (memcmp(&g, &v, sizeof v)) c.fail(strf("file %s: %s is %.9g, expected %.9g", name.c_str(), what, (double)g, (double)v));
  }
  void end() {
    if (p != d.size()) c.fail(strf("file %s has %zu bytes after its data", name.c_str(), d.size() - p));
  }
};
static void header(Cursor &f, const RankView &v, int type, i64 step, const int *n, const float *dd, int spid, float qm, int rank, int nproc) {
  f.want<char>(8, "bits per byte");
  f.want<char>(2, "size of short");
  f.want<char>(4, "size of int");
  f.want<char>(4, "size of float");
  f.want<char>(8, "size of double");
  f.want<short>((short)0xcafe, "short magic");
  f.want<u32>(0xdeadbeef, "int magic");
  f.want<float>(1, "float one");
  f.want<double>(1, "double one");
  f.want<int>(0, "version");
  f.want<int>(type, "dump type");
  f.want<int>((int)step, "step");
  for (int a = 0; a < 3; a++) f.want<int>(n[a], "number of cells");
  f.want<float>(v.g.dt, "time step");
  for (int a = 0; a < 3; a++) f.want<float>(dd[a], "cell size");
  f.want<float>(v.g.x0, "x origin");
  f.want<float>(v.g.y0, "y origin");
  f.want<float>(v.g.z0, "z origin");
  f.want<float>(v.g.cvac, "speed of light");
  f.want<float>(v.g.eps0, "permittivity");
  f.want<float>(0, "damping");
  f.want<int>(rank, "rank");
  f.want<int>(nproc, "number of processes");
  f.want<int>(spid, "species");
  f.want<float>(qm, "charge to mass ratio");
}
static std::string dump_rec(Ctx &c, const Exec &a, int r, const std::string &key) {
  auto *p = a.rec(r, key);
  if (!p) c.fail("the state " + key + " was not recorded");
  return *p;
}
static bool same_e(double v, const std::string &text) {
  char b[64];
  snprintf(b, 64, "%e", v);
  if (text == b) return true;
  double t = atof(text.c_str());
  return fabs(t - v) <= 1.1e-6 * fabs(v);
}

PROPERTY(C14, "distinct (workload, schedule) pairs whose dump files were decoded and compared with the state at the time of the dump", "ref", "v4sse",
         "v8avx2", "v16p", "v8omp") {
  Feat f;
  f.maxtpp = 3;
  f.maxsteps = 5;
  f.minsteps = 1;
  f.rec = 2;
  f.big = 0.02;
  f.uneven = 0; // the strides of banded dumps must divide every process's box
  ExecOpts o = work(c, f);
  i64 du = c.P("dumpset", {127, 1, 3, 4, 8, 16, 96, 12, 19});
  seti(o, "dump", du);
  i64 di = c.I("dumpint", 1, 3);
  seti(o, "dumpint", di);
  seti(o, "recen", 1);
  World3 w(o);
  int L[3];
  int st[3];
  for (int x = 0; x < 3; x++) {
    L[x] = w.N[x] / w.P[x];
    std::vector<i64> fac;
    for (int k = 1; k <= L[x]; k++)
      if (L[x] % k == 0) fac.push_back(k);
    const char *kn[3] = {"sx", "sy", "sz"};
    st[x] = (int)c.P(kn[x], fac);
    seti(o, kn[x], st[x]);
  }
  int dfmt = (int)c.I("dfmt", 0, 1);
  seti(o, "dfmt", dfmt);
  u32 fv = (u32)c.P("fvars", {0xffff, 0xffffff, 0x77, 0xf0001, 0xf00000, 0x8}), hv = (u32)c.P("hvars", {0x3fff, 0xf, 0x70, 0x2080});
  seti(o, "fvars", fv);
  seti(o, "hvars", hv);
  if (c.B("turns", 0.3)) seti(o, "turn", c.I("turn", 1, 3));
  const bool lastonly = c.B("dumplast", 0.4), own = c.B("dumpuser", 0.4);
  seti(o, "dumplast", lastonly);
  seti(o, "dumpuser", own);
  o.pol = rpol(c, "pol", o.nrank, false);
  if ((du & 32) && c.B("badstride", 0.15)) { // a stride that does not fit the local grid must be refused
    int x = (int)c.I("badaxis", 0, 2), z = 0;
    for (int k = 2; k <= L[x] + 1; k++)
      if (L[x] % k && (!z || c.B(strf("bad%d", k), 0.5))) z = k;
    if (z) {
      const char *kn[3] = {"sx", "sy", "sz"};
      seti(o, kn[x], z);
      Exec b = sim->run(o);
      if (b.ok()) c.fail(strf("a stride of %d along axis %d of a local grid of %d cells was accepted", z, x, L[x]));
      if (b.deadlock || b.stepcap) c.fail("the job hangs after an invalid stride: " + b.summary());
      bool said = false;
      for (auto &r : b.r) {
        if (r.st == E_CRASHED) c.fail("a process crashes on an invalid stride: " + b.summary());
        if (r.st == E_EXITED && r.code != 0 && r.log.find("stride") != std::string::npos) said = true;
      }
      if (!said) c.fail("an invalid stride was not reported: " + b.summary());
      sim->note("probe.bad_stride");
      c.nontrivial(b.hash);
      return;
    }
  }
  Exec a = sim->run(o);
  must_succeed(c, a, "a run writing dumps");
  auto q = charges(o);
  FS &fs = sim->fs;
  static const char *NM[4] = {"electron", "ion", "tracer", "extra"};
  (void)NM;
  auto file = [&](const std::string &n) -> const std::string & {
    if (!fs.has(n)) c.fail("file " + n + " was not written");
    return fs.data(n);
  };
  std::vector<std::string> names(w.nsp);
  std::vector<int> order; // the name of each species and the order in which they are listed
  if (du & 2) {
    std::istringstream in(file("species"));
    std::string nm;
    int id;
    std::string sq, sm;
    std::vector<char> seen(w.nsp, 0);
    int cnt = 0;
    while (in >> nm >> id >> sq >> sm) {
      cnt++;
      if (id < 0 || id >= w.nsp || seen[id]) c.fail(strf("species dump: unexpected species number %d", id));
      seen[id] = 1;
      names[id] = nm;
      if (!same_e((float)q[id], sq)) c.fail(strf("species dump: the charge of species %d is %s, expected %g", id, sq.c_str(), q[id]));
      if (!same_e((float)species_mass(o, id), sm))
        c.fail(strf("species dump: the mass of species %d is %s, expected %g", id, sm.c_str(), species_mass(o, id)));
    }
    if (cnt != w.nsp) c.fail(strf("species dump: %d readable entries for %d species", cnt, w.nsp));
    std::istringstream im(file("materials"));
    std::map<std::string, std::vector<double>> mats;
    std::string mn;
    int mi;
    while (im >> mn >> mi) {
      std::vector<double> v;
      for (int i = 0; i < 9; i++) {
        double z;
        if (!(im >> z)) c.fail("materials dump: truncated entry " + mn);
        v.push_back(z);
      }
      mats[mn] = v;
    }
    std::map<std::string, std::vector<double>> want;
    if (i64 m1 = ci(o, "onemat", 0)) want["fill"] = {1.5, 2, 1.25, 1.1, 1.25, 1.5, m1 == 1 ? 0 : 0.3, 0, m1 == 1 ? 0 : 0.05};
    else want["vacuum"] = {1, 1, 1, 1, 1, 1, 0, 0, 0};
    if (ci(o, "mat", 0)) {
      double sg = cf(o, "sigma", 0.3);
      want["diel"] = {2, 1.5, 1.25, 1, 1.25, 1.1, 0, 0, 0.01};
      want["cond"] = {1.5, 1.5, 1.5, 1.2, 1.2, 1.2, sg, sg, sg};
    }
    if (mats.size() != want.size()) c.fail(strf("materials dump: %zu entries for %zu materials", mats.size(), want.size()));
    for (auto &m : want) {
      auto it = mats.find(m.first);
      if (it == mats.end()) c.fail("materials dump: no entry for " + m.first);
      for (int i = 0; i < 9; i++)
        if (fabs(it->second[i] - m.second[i]) > 2e-6 * fabs(m.second[i]))
          c.fail(strf("materials dump: coefficient %d of %s is %g, expected %g", i, m.first.c_str(), it->second[i], m.second[i]));
    }
    StepView S = need(c, a, 0, w);
    std::vector<i64> base(o.nrank + 1, 0);
    for (int r = 0; r < o.nrank; r++) base[r + 1] = base[r] + (i64)S.r[r].nv;
    std::vector<std::array<int, 3>> of;
    for (auto &v : S.r) of.push_back(offset(w, v));
    for (int r = 0; r < o.nrank; r++) {
      auto &v = S.r[r];
      Cursor g(c, strf("grid.%d", r), file(strf("grid.%d", r)));
      const float dd[3] = {v.g.dx, v.g.dy, v.g.dz};
      header(g, v, 0, 0, &v.n.nx, dd, -1, 0, r, o.nrank);
      g.want<int>(4, "element size");
      g.want<int>(3, "rank of the array");
      for (int i = 0; i < 3; i++) g.want<int>(3, "extent");
      std::array<int, 27> bc;
      for (auto &z : bc) z = g.get<int>();
      if (bc[13] != r) c.fail(strf("grid dump of rank %d: the domain's own entry is %d", r, bc[13]));
      g.want<int>(8, "element size");
      g.want<int>(1, "rank of the array");
      g.want<int>(o.nrank + 1, "extent");
      for (int i = 0; i <= o.nrank; i++) g.want<i64>(base[i], "first voxel of a process");
      g.want<int>(8, "element size");
      g.want<int>(4, "rank of the array");
      g.want<int>(6, "extent");
      const int *n = &v.n.nx;
      for (int i = 0; i < 3; i++) g.want<int>(n[i] + 2, "extent");
      const i64 *nb = (const i64 *)g.raw(v.nv * 48);
      g.end();
      for (int k = 1; k <= n[2]; k++)
        for (int j = 1; j <= n[1]; j++)
          for (int i = 1; i <= n[0]; i++)
            for (int face = 0; face < 6; face++) {
              int x = face % 3, cc[3] = {i, j, k};
              i64 got;
              memcpy(&got, nb + 6 * (size_t)v.v(i, j, k) + face, 8);
              cc[x] += face < 3 ? -1 : 1;
              i64 want;
              if (cc[x] >= 1 && cc[x] <= n[x]) want = base[r] + v.v(cc[0], cc[1], cc[2]);
              else {
                int G = of[r][x] + (face < 3 ? -1 : n[x]);
                bool edge = G < 0 || G >= w.N[x];
                if (edge && w.wall[face] != INT_MIN) {
                  if (w.wall[face] == -3 ? got < -2 : got == w.wall[face]) continue;
                  if (face == 3 && got < -2 && ci(o, "cbc", 0) && !ci(o, "cbc_wall", 0)) continue;
                  c.fail(strf("grid dump of rank %d: face %d of cell (%d,%d,%d) is marked %lld, expected boundary %d", r, face, i, j, k,
                              (long long)got, w.wall[face]));
                }
                G = (G + w.N[x]) % w.N[x];
                int Gc[3] = {of[r][0] + i - 1, of[r][1] + j - 1, of[r][2] + k - 1};
                Gc[x] = G;
                want = -99;
                for (int s = 0; s < o.nrank; s++) {
                  const int *m = &S.r[s].n.nx;
                  int lc[3];
                  bool in = true;
                  for (int y = 0; y < 3; y++) {
                    lc[y] = Gc[y] - of[s][y] + 1;
                    if (lc[y] < 1 || lc[y] > m[y]) in = false;
                  }
                  if (in) want = base[s] + S.r[s].v(lc[0], lc[1], lc[2]);
                }
              }
              if (got != want) {
                if (ci(o, "cbc", 0) && got < -2) continue;
                c.fail(strf("grid dump of rank %d: neighbour %d of cell (%d,%d,%d) is voxel %lld, expected %lld", r, face, i, j, k, (long long)got,
                            (long long)want));
              }
            }
    }
  }
  if (du & 1) { // energies: one line per dump, in the order announced by the header
    std::istringstream in(file("energies"));
    std::string line;
    std::vector<std::string> lines;
    while (std::getline(in, line)) lines.push_back(line);
    if (lines.size() < 3 || lines[0] != "% Layout" || lines[1].compare(0, 27, "% step ex ey ez bx by bz \"e") > 99 ||
        lines[1].compare(0, 24, "% step ex ey ez bx by bz"))
      c.fail("energies: unexpected layout header");
    std::vector<int> sp;
    size_t p = 24;
    while ((p = lines[1].find('"', p)) != std::string::npos) {
      size_t e = lines[1].find('"', p + 1);
      std::string nm = lines[1].substr(p + 1, e - p - 1);
      p = e + 1;
      int id = -1;
      for (int k = 0; k < w.nsp; k++) {
        if (du & 2 ? names[k] == nm : (std::string(1, "eitx"[k]) == nm.substr(0, 1))) id = k;
      }
      sp.push_back(id);
    }
    if ((int)sp.size() != w.nsp) c.fail(strf("energies: %zu species announced, %d defined", sp.size(), w.nsp));
    size_t ln = 3;
    for (i64 s = 0; s <= w.nsteps; s += di) {
      if (ln >= lines.size()) c.fail(strf("energies: no line for step %lld", (long long)s));
      std::istringstream l(lines[ln++]);
      std::string t;
      l >> t;
      if (atoll(t.c_str()) != s) c.fail(strf("energies: line of step %s where step %lld is due", t.c_str(), (long long)s));
      std::string rec = dump_rec(c, a, 0, strf("en.%lld", (long long)s));
      const double *en = (const double *)rec.data();
      for (int i = 0; i < 6 + w.nsp; i++) {
        if (!(l >> t)) c.fail(strf("energies: step %lld has only %d values", (long long)s, i));
        double v = i < 6 ? en[i] : sp[i - 6] < 0 ? atof(t.c_str()) : en[6 + sp[i - 6]];
        if (!same_e(v, t)) c.fail(strf("energies: value %d of step %lld is %s, the simulation held %.9g", i, (long long)s, t.c_str(), v));
      }
      if (l >> t) c.fail(strf("energies: step %lld has extra values", (long long)s));
    }
    if (ln != lines.size()) c.fail("energies: extra lines");
  }
  Fields fl;
  size_t files = 0;
  for (i64 s = 0; s <= w.nsteps; s += di) {
    StepView S = need(c, a, s, w);
    if (du & 16) gather_fields(w, S, fl);
    for (int r = 0; r < o.nrank; r++) {
      auto &v = S.r[r];
      const int *n = &v.n.nx;
      int e[3] = {n[0] + 2, n[1] + 2, n[2] + 2};
      const float dd[3] = {v.g.dx, v.g.dy, v.g.dz};
      auto arr = [&](Cursor &g, int sz, const int *ext) {
        g.want<int>(sz, "element size");
        g.want<int>(3, "rank of the array");
        for (int i = 0; i < 3; i++) g.want<int>(ext[i], "extent");
      };
      auto block = [&](Cursor &g, const void *p, size_t z, const std::string &what) {
        const char *d = g.raw(z);
        if (memcmp(d, p, z)) {
          size_t k = 0;
          while (d[k] == ((const char *)p)[k]) k++;
          c.fail(strf("file %s: %s differs from the simulation's at byte %zu", g.name.c_str(), what.c_str(), k));
        }
      };
      const bool fin = s + di > w.nsteps;                       // files without a step in their name hold the last dump
      std::string fu((const char *)v.f, v.nv * sizeof(PField)); // what the deck handed over instead of the simulation's own fields
      auto twice = [](std::string &d, size_t el, size_t off) {
        for (size_t i = 0; i + el <= d.size(); i += el) {
          float z;
          memcpy(&z, &d[i + off], 4);
          z *= 2;
          memcpy(&d[i + off], &z, 4);
        }
      };
      if (du & 4) {
        std::vector<std::pair<std::string, int>> fn = {{strf("fields.%lld.%d", (long long)s, r), 0}};
        if (own) fn.push_back({strf("ufields.%lld.%d", (long long)s, r), 1});
        if (lastonly && fin) fn.push_back({strf("lfields.%d", r), 0});
        for (auto &nm : fn) {
          Cursor g(c, nm.first, file(nm.first));
          header(g, v, 1, s, n, dd, -1, 0, r, o.nrank);
          arr(g, sizeof(PField), e);
          std::string d = fu;
          if (nm.second) twice(d, sizeof(PField), 20);
          block(g, d.data(), d.size(), "the field data");
          g.end();
          files++;
        }
      }
      for (int k = 0; k < w.nsp; k++) {
        float qm = (float)q[k] / (float)species_mass(o, k);
        if (du & 8) {
          std::string h = dump_rec(c, a, r, strf("hy%d.%lld", k, (long long)s));
          std::vector<std::pair<std::string, int>> fn = {{strf("hydro_%d.%lld.%d", k, (long long)s, r), 0}};
          if (own) fn.push_back({strf("uhydro_%d.%lld.%d", k, (long long)s, r), 1});
          if (lastonly && fin) fn.push_back({strf("lhydro_%d.%d", k, r), 0});
          for (auto &nm : fn) {
            Cursor g(c, nm.first, file(nm.first));
            header(g, v, 2, s, n, dd, k, qm, r, o.nrank);
            arr(g, 64, e);
            std::string d = h;
            if (nm.second) twice(d, 64, 52);
            block(g, d.data(), d.size(), "the moment data");
            g.end();
            files++;
          }
        }
        if ((du & 16) && lastonly && fin) {
          std::string nm = strf("lpart_%d.%d", k, r);
          if (file(nm) != file(strf("part_%d.%lld.%d", k, (long long)s, r)))
            c.fail(strf("file %s is not the same as the dump of step %lld made at the same time", nm.c_str(), (long long)s));
        }
        if (du & 16) {
          std::string nm = strf("part_%d.%lld.%d", k, (long long)s, r);
          Cursor g(c, nm, file(nm));
          header(g, v, 3, s, n, dd, k, qm, r, o.nrank);
          g.want<int>(32, "element size");
          g.want<int>(1, "rank of the array");
          size_t np = v.sp[k].second;
          g.want<int>((int)np, "number of particles");
          double k2 = q[k] * v.g.dt / (2 * species_mass(o, k) * w.cvac);
          for (size_t i = 0; i < np; i++) {
            PPart p;
            memcpy(&p, g.raw(32), 32);
            const PPart &t = v.sp[k].first[i];
            if (memcmp(&p.dx, &t.dx, 16) || memcmp(&p.w, &t.w, 4))
              c.fail(strf("file %s: position or weight of particle %zu differ from the simulation's", nm.c_str(), i));
            GP gp;
            std::string z = place(w, v, r, k, t, gp);
            if (!z.empty()) c.fail(z);
            double u[3];
            centred(w, fl, gp, k2, u);
            const float *pu = &p.ux;
            double m = 1;
            for (int x = 0; x < 3; x++) m += fabs(u[x]) + fabs(gp.u[x]);
            for (int x = 0; x < 3; x++)
              if (!(fabs(pu[x] - u[x]) <= 2e-5 * m))
                c.fail(strf("file %s: momentum component %d of particle %zu is %.8g; centred in time it is %.8g", nm.c_str(), x, i, pu[x], u[x]));
          }
          g.end();
          files++;
        }
      }
      if (du & 32) {
        int m[3], ex[3];
        float ds[3];
        for (int x = 0; x < 3; x++) {
          m[x] = n[x] / st[x];
          ex[x] = m[x] + 2;
          ds[x] = dd[x] * (float)st[x];
        }
        auto src = [&](int x, int i) { return i == 0 ? 0 : i == m[x] + 1 ? n[x] + 1 : st[x] == 1 ? i : i * st[x] - 1; };
        auto strided = [&](Cursor &g, const char *data, size_t el, u32 vars, int nvar) {
          if (dfmt) {
            for (int k = 0; k < ex[2]; k++)
              for (int j = 0; j < ex[1]; j++)
                for (int i = 0; i < ex[0]; i++)
                  block(g, data + el * (size_t)v.v(src(0, i), src(1, j), src(2, k)), el, strf("voxel (%d,%d,%d)", i, j, k));
          } else
            for (int b = 0; b < nvar; b++)
              if (vars >> b & 1)
                for (int k = 0; k < ex[2]; k++)
                  for (int j = 0; j < ex[1]; j++)
                    for (int i = 0; i < ex[0]; i++) {
                      bool id = el == sizeof(PField) && b >= 16;
                      block(g, data + el * (size_t)v.v(src(0, i), src(1, j), src(2, k)) + (id ? 64 + 2 * (b - 16) : 4 * b), id ? 2 : 4,
                            strf("variable %d at voxel (%d,%d,%d)", b, i, j, k));
                    }
          g.end();
          files++;
        };
        {
          std::string nm = strf("flds/T.%lld/fld.%lld.%d", (long long)s, (long long)s, r);
          Cursor g(c, nm, file(nm));
          header(g, v, 1, s, m, ds, -1, 0, r, o.nrank);
          arr(g, sizeof(PField), ex);
          strided(g, (const char *)v.f, sizeof(PField), fv, 24);
        }
        if (own) {
          std::string nm = strf("flds/T.%lld/ufld.%lld.%d", (long long)s + 5000, (long long)s + 5000, r), d = fu;
          Cursor g(c, nm, file(nm));
          header(g, v, 1, s + 5000, m, ds, -1, 0, r, o.nrank);
          arr(g, sizeof(PField), ex);
          twice(d, sizeof(PField), 8);
          strided(g, d.data(), sizeof(PField), fv, 24);
        }
        for (int k = 0; k < w.nsp; k++) {
          std::string nm = strf("hyd/T.%lld/hyd%d.%lld.%d", (long long)s, k, (long long)s, r),
                      h = dump_rec(c, a, r, strf("hs%d.%lld", k, (long long)s));
          Cursor g(c, nm, file(nm));
          header(g, v, 2, s, m, ds, k, (float)q[k] / (float)species_mass(o, k), r, o.nrank);
          arr(g, 64, ex);
          strided(g, h.data(), 64, hv, 14);
          if (own) {
            std::string nu = strf("hyd/T.%lld/uhyd%d.%lld.%d", (long long)s + 7000, k, (long long)s + 7000, r);
            Cursor u(c, nu, file(nu));
            header(u, v, 2, s + 7000, m, ds, k, (float)q[k] / (float)species_mass(o, k), r, o.nrank);
            arr(u, 64, ex);
            twice(h, 64, 4);
            strided(u, h.data(), 64, hv, 14);
          }
        }
      }
    }
  }
  if (du & 32) { // the description of the strided dumps
    std::string t = "\n" + file("global.vpc");
    auto val = [&](const char *k) {
      size_t p = t.find(strf("\n%s ", k));
      if (p == std::string::npos) c.fail(strf("global header: no %s", k));
      p += strlen(k) + 2;
      return t.substr(p, t.find('\n', p) - p);
    };
    StepView S = need(c, a, 0, w);
    auto &g = S.r[0].g;
    auto num = [&](const char *k, double want) {
      std::string s = val(k);
      double z = atof(s.c_str());
      if (fabs(z - want) > 1e-6 + 1e-6 * fabs(want)) c.fail(strf("global header: %s is %s, expected %g", k, s.c_str(), want));
    };
    num("DATA_HEADER_SIZE", 123);
    num("GRID_DELTA_T", g.dt);
    num("GRID_CVAC", g.cvac);
    num("GRID_EPS0", g.eps0);
    num("GRID_DELTA_X", g.dx);
    num("GRID_DELTA_Y", g.dy);
    num("GRID_DELTA_Z", g.dz);
    num("GRID_TOPOLOGY_X", w.P[0]);
    num("GRID_TOPOLOGY_Y", w.P[1]);
    num("GRID_TOPOLOGY_Z", w.P[2]);
    auto ext = [&](const char *k, double lo, double hi) {
      double z[2] = {1e99, 1e99};
      sscanf(val(k).c_str(), "%lf %lf", z, z + 1);
      if (fabs(z[0] - lo) > 1e-6 * (1 + fabs(lo)) || fabs(z[1] - hi) > 1e-6 * (1 + fabs(hi)))
        c.fail(strf("global header: %s is %s, expected %g %g", k, val(k).c_str(), lo, hi));
    };
    ext("GRID_EXTENTS_X", g.x0, g.x1);
    ext("GRID_EXTENTS_Y", g.y0, g.y1);
    ext("GRID_EXTENTS_Z", g.z0, g.z1);
    num("NUM_OUTPUT_SPECIES", w.nsp);
    struct Group {
      const char *name, *degree;
      int elements, first;
      const char *type;
      int size;
    };
    static const Group FG[12] = {{"Electric Field", "VECTOR", 3, 0, "FLOATING_POINT", 4},
                                 {"Electric Field Divergence Error", "SCALAR", 1, 3, "FLOATING_POINT", 4},
                                 {"Magnetic Field", "VECTOR", 3, 4, "FLOATING_POINT", 4},
                                 {"Magnetic Field Divergence Error", "SCALAR", 1, 7, "FLOATING_POINT", 4},
                                 {"TCA Field", "VECTOR", 3, 8, "FLOATING_POINT", 4},
                                 {"Bound Charge Density", "SCALAR", 1, 11, "FLOATING_POINT", 4},
                                 {"Free Current Field", "VECTOR", 3, 12, "FLOATING_POINT", 4},
                                 {"Charge Density", "SCALAR", 1, 15, "FLOATING_POINT", 4},
                                 {"Edge Material", "VECTOR", 3, 16, "INTEGER", 2},
                                 {"Node Material", "SCALAR", 1, 19, "INTEGER", 2},
                                 {"Face Material", "VECTOR", 3, 20, "INTEGER", 2},
                                 {"Cell Material", "SCALAR", 1, 23, "INTEGER", 2}};
    static const Group HG[5] = {{"Current Density", "VECTOR", 3, 0, "FLOATING_POINT", 4},
                                {"Charge Density", "SCALAR", 1, 3, "FLOATING_POINT", 4},
                                {"Momentum Density", "VECTOR", 3, 4, "FLOATING_POINT", 4},
                                {"Kinetic Energy Density", "SCALAR", 1, 7, "FLOATING_POINT", 4},
                                {"Stress Tensor", "TENSOR", 6, 8, "FLOATING_POINT", 4}};
    auto groups = [](const Group *G, int n, u32 vars) {
      std::vector<Group> v;
      for (int i = 0; i < n; i++)
        if (vars >> G[i].first & 1) v.push_back(G[i]);
      return v;
    };
    // the described sections, in order
    std::istringstream in(t);
    std::string line;
    std::vector<std::vector<std::string>> sec; // directory, base name, count, lines
    while (std::getline(in, line)) {
      if (line.compare(0, 21, "FIELD_DATA_DIRECTORY ") == 0 || line.compare(0, 23, "SPECIES_DATA_DIRECTORY ") == 0)
        sec.push_back({line.substr(line.find(' ') + 1)});
      else if (!sec.empty() && !line.empty() && line[0] != '#' && line.compare(0, 18, "NUM_OUTPUT_SPECIES"))
        sec.back().push_back(line[0] == '"' ? line : line.substr(line.find(' ') + 1));
    }
    if ((int)sec.size() != 1 + w.nsp) c.fail(strf("global header: %zu data sections, expected %d", sec.size(), 1 + w.nsp));
    for (int k = -1; k < w.nsp; k++) {
      auto &z = sec[k + 1];
      auto G = k < 0 ? groups(FG, 12, fv) : groups(HG, 5, k == 0 ? hv : k == 1 ? 0x0011 : 0x018f);
      std::vector<std::string> e = {k < 0 ? "flds" : k == 1 ? "hydi" : "hyd", k < 0 ? "fld" : strf("hyd%d", k), strf("%zu", G.size())};
      for (auto &x : G) e.push_back(strf("\"%s\" %s %d %s %d", x.name, x.degree, x.elements, x.type, x.size));
      for (size_t i = 0; i < std::max(e.size(), z.size()); i++)
        if (i >= e.size() || i >= z.size() || e[i] != z[i])
          c.fail(strf("global header: data section %d, entry %zu is '%s', expected '%s'", k + 1, i, i < z.size() ? z[i].c_str() : "(nothing)",
                      i < e.size() ? e[i].c_str() : "(nothing)"));
    }
    auto joined = [](const std::vector<Group> &G) {
      std::string s;
      for (auto &x : G) s += (s.empty() ? "" : ", ") + std::string(x.name);
      return s;
    };
    std::string lf = dump_rec(c, a, 0, "dump.lf.0"), lh = dump_rec(c, a, 0, "dump.lh.0");
    if (lf != joined(groups(FG, 12, fv))) c.fail("the list of dumped field variables is '" + lf + "', expected '" + joined(groups(FG, 12, fv)) + "'");
    if (lh != joined(groups(HG, 5, hv))) c.fail("the list of dumped moment variables is '" + lh + "', expected '" + joined(groups(HG, 5, hv)) + "'");
  }
  if (!files && !(du & 3)) c.fail("nothing was dumped");
  sim->note("probe.dump_files", files);
  c.nontrivial(a.hash);
}
