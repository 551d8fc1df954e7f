// Simulated input deck: the workload every rank runs.  Everything it does is
// selected by the scenario's configuration (sim_geti / sim_getd); everything it
// observes is handed to the simulator (sim_rec).  It uses the public deck API.
#include "sim/include/sim_api.h"
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <string>
#include <vector>
#include <algorithm>
#include <map>
#include <stdarg.h>
#include <limits.h>

#define GI(k, d) ((int)sim_geti(k, d))
#define GD(k, d) sim_getd(k, d)

begin_globals {
  int nsp, inited, seed, nrest;
  int64_t injected[4];
  double tagbase;
  int64_t magic;
  double fhist[8];
};

static uint64_t hsh(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static double hu(uint64_t a, uint64_t b) { return ((double)(hsh(a, b) >> 11) + 0.5) * (1.0 / 9007199254740992.0); }
static double hn(uint64_t a, uint64_t b) {
  double s = 0;
  for (int i = 0; i < 6; i++) s += hu(a, b * 7 + i);
  return (s - 3) * 1.4142135623730951;
}
static const char *spname[4] = {"electron", "ion", "tracer", "beam"};

// ---- dispatcher exercise: what a pipelined kernel is entitled to
#define IN_spa
#undef HAS_V4_PIPELINE
#undef HAS_V8_PIPELINE
#undef HAS_V16_PIPELINE
#include "src/util/pipelines/pipelines_exec.h"
struct tpx_args {
  volatile int *cnt;
  volatile int *done;
  volatile int *badn;
  const int *in;
  volatile int *out;
  int n, work;
  int64_t pad[2];
};
static void tpx_work_pipeline_scalar(tpx_args *a, int pr, int np) {
  if (pr < 0 || pr > np || np != a->n) {
    a->badn[0] = 1;
    return;
  }
  a->cnt[pr]++;
  for (int i = 0; i < a->work; i++) {
    a->out[pr] += a->in[i % 7] + pr;
    if (i % 3 == pr % 3) sim_yield();
  }
  a->done[pr] = 1;
}
static void tpx_run(int rounds, int work, std::vector<int> &res, int how = 0) { // how: 1 separate arguments for every job, 2 the serial dispatcher
#if defined(VPIC_USE_PTHREADS)
  const int n = how == 2 ? serial.n_pipeline : N_PIPELINE;
#else
  const int n = N_PIPELINE;
  how = 0;
#endif
  static const int in[7] = {3, 1, 4, 1, 5, 9, 2};
  std::vector<int> cnt(n + 1), done(n + 1), out(n + 1), bad(1);
  for (int r = 0; r < rounds; r++) {
    std::fill(cnt.begin(), cnt.end(), 0);
    std::fill(done.begin(), done.end(), 0);
    std::fill(out.begin(), out.end(), 0);
    bad[0] = 0;
    std::vector<tpx_args> many(n + 1);
    std::vector<std::vector<int>> ins(n + 1, std::vector<int>(in, in + 7));
    tpx_args *args = &many[0];
    args->cnt = &cnt[0];
    args->done = &done[0];
    args->badn = &bad[0];
    args->in = in;
    args->out = &out[0];
    args->n = n;
    args->work = work;
    if (how)
      for (int i = 0; i <= n; i++) {
        many[i] = many[0];
        for (auto &x : ins[i]) x += 10 * i;
        many[i].in = &ins[i][0];
      }
    if (how == 0) {
      EXEC_PIPELINES(tpx_work, args, 0);
      WAIT_PIPELINES();
    }
#if defined(VPIC_USE_PTHREADS)
    else if (how == 1) {
      EXEC_PIPELINES(tpx_work, args, 1);
      WAIT_PIPELINES();
    } else {
      serial.dispatch((pipeline_func_t)tpx_work_pipeline_scalar, args, sizeof(*args), 1);
      tpx_work_pipeline_scalar(args + n, n, n);
      serial.wait();
    }
#endif
    memset((void *)args, 0x5b, sizeof(*args) * (n + 1));
    args->badn = &bad[0]; // the arguments are the caller's again
    res.push_back(n);
    res.push_back(bad[0]);
    for (int i = 0; i <= n; i++) {
      res.push_back(cnt[i]);
      res.push_back(done[i]);
      res.push_back(out[i]);
    }
  }
}

// ---- what random generators promise: bulk fills, intervals, distributions, permutations
static void rngx_say(std::string &bad, const char *f, ...) {
  char b[256];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (bad.empty()) bad = b;
}
static void rngx_bins(std::string &bad, const char *what, const double *u, int n) { // u would be uniform on [0,1]
  const int B = 12;
  int h[B] = {0};
  double m = 0;
  for (int i = 0; i < n; i++) {
    m += u[i] / n;
    h[std::max(0, std::min(B - 1, (int)(u[i] * B)))]++;
  }
  if (!(fabs(m - 0.5) < 7 / sqrt(12. * n))) rngx_say(bad, "%s: the mean of %d deviates is off (%.4f)", what, n, m);
  const double e = (double)n / B;
  for (int i = 0; i < B; i++)
    if (fabs(h[i] - e) > 8 * sqrt(e) + 8) rngx_say(bad, "%s: %d of %d deviates in interval %d of %d", what, h[i], n, i, B);
}
template <class T, class S, class F>
static void rngx_fill(std::string &bad, const char *what, rng_t *a, rng_t *b, S single, F fill, size_t n, size_t st, double lo, double hi,
                      bool hiopen, bool loopen) {
  std::vector<T> v(n * st + 3);
  memset((void *)&v[0], 0x5c, v.size() * sizeof(T));
  std::vector<T> z = v;
  if (fill(a, &v[0], st, n) != &v[0]) rngx_say(bad, "%srand_fill does not return its array", what);
  for (size_t i = 0; i < n; i++) {
    T x = single(b);
    if (memcmp(&x, &v[i * st], sizeof(T)))
      rngx_say(bad, "%srand_fill: element %zu of %zu (stride %zu) is not what the %zu-th single draw gives", what, i, n, st, i);
    if (!((double)x >= lo && (double)x <= hi) || (hiopen && !((double)x < hi)) || (loopen && !((double)x > lo)))
      rngx_say(bad, "%srand: %.17g is outside its interval", what, (double)x);
    z[i * st] = x;
  }
  if (memcmp((void *)&v[0], (void *)&z[0], v.size() * sizeof(T))) rngx_say(bad, "%srand_fill writes between its elements", what);
}
// many deviates at once: fine bins, far tails, and neighbours that know nothing of each other
template <class F> static void rngx_many(std::string &bad, const char *what, int n, F draw) {
  const int B = 128, C = 12;
  std::vector<int> h(B), p(C * C);
  double prev = -1, tail[2] = {0, 0};
  for (int i = 0; i < n; i++) {
    double u = draw();
    h[std::max(0, std::min(B - 1, (int)(u * B)))]++;
    tail[0] += u < 1e-3;
    tail[1] += u > 1 - 1e-3;
    if (prev >= 0 && i % 2) p[std::max(0, std::min(C - 1, (int)(u * C))) * C + std::max(0, std::min(C - 1, (int)(prev * C)))]++;
    prev = u;
  }
  auto out = [](double got, double want) { return fabs(got - want) > 7.5 * sqrt(want) + 10; };
  for (int i = 0; i < B; i++)
    if (out(h[i], (double)n / B)) rngx_say(bad, "%s: %d of %d deviates in interval %d of %d", what, h[i], n, i, B);
  for (int i = 0; i < 2; i++)
    if (out(tail[i], 1e-3 * n)) rngx_say(bad, "%s: %g of %d deviates in the %s thousandth", what, tail[i], n, i ? "last" : "first");
  for (int i = 0; i < C * C; i++)
    if (out(p[i], n / 2. / (C * C))) rngx_say(bad, "%s: %d of %d pairs of neighbours in interval (%d,%d) of %d", what, p[i], n / 2, i % C, i / C, C);
}
static std::string rngx_run(int seed) {
  std::string bad;
  rng_t *a = new_rng(seed), *b = new_rng(seed + 1);
  seed_rng(b, seed);
  uint64_t k = 0;
  for (int round = 0; round < 3; round++) {
    auto N = [&](int m) { return 1 + (size_t)(hu(seed, ++k) * m); };
#define RX(p, T, lo, hi) rngx_fill<T>(bad, #p, a, b, p##rand, p##rand_fill, N(90), N(3), lo, hi, false, false);
    RX(c, char, 0, CHAR_MAX)
    RX(uc, unsigned char, 0, UCHAR_MAX)
    RX(h, short, 0, SHRT_MAX)
    RX(uh, unsigned short, 0, USHRT_MAX)
    RX(i, int, 0, INT_MAX)
    RX(ui, unsigned int, 0, UINT_MAX)
    RX(l, long, 0, (double)LONG_MAX)
    RX(ul, unsigned long, 0, (double)ULONG_MAX)
    RX(i8, int8_t, 0, INT8_MAX)
    RX(u8, uint8_t, 0, UINT8_MAX)
    RX(i16, int16_t, 0, INT16_MAX)
    RX(u16, uint16_t, 0, UINT16_MAX)
    RX(i32, int32_t, 0, INT32_MAX)
    RX(u32, uint32_t, 0, UINT32_MAX)
    RX(i64, int64_t, 0, (double)INT64_MAX)
    RX(u64, uint64_t, 0, (double)UINT64_MAX)
#undef RX
#define RX(p, x, T, ho, lo) rngx_fill<T>(bad, #p #x, a, b, p##rand##x, p##rand##x##_fill, N(90), N(3), 0, 1, ho, lo);
    RX(f, , float, true, true)
    RX(d, , double, true, true)
    RX(f, _c0, float, true, false)
    RX(d, _c0, double, true, false)
    RX(f, _c1, float, false, true)
    RX(d, _c1, double, false, true)
    RX(f, _c, float, false, false)
    RX(d, _c, double, false, false)
#undef RX
    rngx_fill<float>(bad, "frandn", a, b, frandn, frandn_fill, N(90), N(3), -1e9, 1e9, false, false);
    rngx_fill<double>(bad, "drandn", a, b, drandn, drandn_fill, N(90), N(3), -1e9, 1e9, false, false);
    rngx_fill<float>(bad, "frande", a, b, frande, frande_fill, N(90), N(3), 0, 1e9, false, false);
    rngx_fill<double>(bad, "drande", a, b, drande, drande_fill, N(90), N(3), 0, 1e9, false, false);
    int n = (int)N(70), P[70];
    if (randperm(a, P, n) != P) rngx_say(bad, "randperm does not return its array");
    randperm(b, P, n);
    std::vector<char> seen(n, 0);
    for (int i = 0; i < n; i++) {
      if (P[i] < 0 || P[i] >= n || seen[P[i]]) {
        rngx_say(bad, "randperm of %d is not a permutation", n);
        break;
      }
      seen[P[i]] = 1;
    }
    static const int SZ[7] = {1, 2, 4, 8, 3, 16, 24};
    size_t sz = SZ[(int)(hu(seed, ++k) * 7)], st = hu(seed, ++k) < 0.6 ? sz * N(3) : sz + N(5), m = 1 + N(60);
    std::vector<unsigned char> v(m * st + 8), w;
    for (size_t i = 0; i < v.size(); i++) v[i] = (unsigned char)hsh(seed + 5, i);
    w = v;
    shuffle(a, &w[0], sz, st, m);
    shuffle(b, &(std::vector<unsigned char>(v))[0], sz, st, m);
    std::map<std::string, int> e;
    for (size_t i = 0; i < m; i++) {
      e[std::string((char *)&v[i * st], sz)]++;
      e[std::string((char *)&w[i * st], sz)]--;
      if (memcmp(&v[i * st + sz], &w[i * st + sz], st - sz)) rngx_say(bad, "shuffle of %zu elements of %zu bytes writes between them", m, sz);
    }
    for (auto &q : e)
      if (q.second) rngx_say(bad, "shuffle of %zu elements of %zu bytes (stride %zu) loses or repeats elements", m, sz, st);
    if (u64rand(a) != u64rand(b)) rngx_say(bad, "two generators with the same seed and the same history disagree");
  }
  // distributions
  const int n = 3000;
  std::vector<double> u(n);
#define DX(what, expr)                                                                                                                               \
  for (int i = 0; i < n; i++) u[i] = expr;                                                                                                           \
  rngx_bins(bad, what, &u[0], n);
  DX("drand", drand(a))
  DX("frand_c0", frand_c0(a))
  DX("i32rand", i32rand(a) / 2147483648.)
  DX("u16rand", (u16rand(a) + 0.5) / 65536.)
  DX("i8rand", (i8rand(a) + drand(b)) / 128.)
  DX("frandn", 0.5 * erfc(-frandn(a) / sqrt(2.)))
  DX("drandn", 0.5 * erfc(-drandn(a) / sqrt(2.)))
  DX("frande", exp(-frande(a)))
  DX("drande", exp(-drande(a)))
#undef DX
  if (hu(seed, ++k) < 0.08) {
#define DX(what, expr) rngx_many(bad, what, 1500000, [&] { return expr; });
    switch (seed % 9) {
    case 0:
      DX("drand", drand(a)) break;
    case 1:
      DX("frand", frand(a)) break;
    case 2:
      DX("u32rand", (u32rand(a) + 0.5) / 4294967296.) break;
    case 3:
      DX("i64rand", (double)i64rand(a) / 9223372036854775808.) break;
    case 4:
      DX("drand_c", drand_c(a)) break;
    case 5:
      DX("frandn", 0.5 * erfc(-frandn(a) / sqrt(2.))) break;
    case 6:
      DX("drandn", 0.5 * erfc(-drandn(a) / sqrt(2.))) break;
    case 7:
      DX("frande", exp(-frande(a))) break;
    default:
      DX("drande", exp(-drande(a)))
    }
#undef DX
  }
  // every element may end up in every place
  for (int round = 0; round < 2; round++)
    for (int how = 0; how < 3; how++) {
      const int m = 2 + (int)(hu(seed + 9, ++k) * 8), T = 700;
      std::vector<int> cnt(m * m);
      for (int t = 0; t < T; t++) {
        int P[16];
        uint64_t Q[16];
        for (int i = 0; i < m; i++) Q[i] = (uint64_t)(P[i] = i);
        if (how == 0) randperm(a, P, m);
        else if (how == 1) shuffle(a, P, 4, 4, m);
        else {
          shuffle(a, Q, 8, 8, m);
          for (int i = 0; i < m; i++) P[i] = (int)Q[i];
        }
        for (int i = 0; i < m; i++)
          if (P[i] >= 0 && P[i] < m) cnt[i * m + P[i]]++;
      }
      const double e = (double)T / m;
      for (int i = 0; i < m * m; i++)
        if (fabs(cnt[i] - e) > 8 * sqrt(e) + 8)
          rngx_say(bad, "%s of %d elements: element %d is put in place %d %d times in %d", how ? "shuffle" : "randperm", m, i % m, i / m, cnt[i], T);
    }
  delete_rng(a);
  delete_rng(b);
  return bad;
}

static void recs(const char *a, long long s, const char *b, const void *p, size_t n) {
  char k[96];
  snprintf(k, sizeof k, "%s%lld%s", a, s, b);
  sim_rec(k, p, n);
}

// the first cell of slab i of p: every second boundary of equal slabs is moved; no slab of a divided axis gets thinner than
// two cells (the kernels take an axis with a single local cell for one without extent)
static int slab(int seed, int n, int p, int i) {
  const int base = n / p;
  return i * base + (i & 1 && i < p && base > 2 ? (int)(hu(seed, i) * (2 * base - 3)) - base + 2 : 0);
}
static double corner(double lo, double len, int c, int n) { return lo * (1 - (double)c / n) + (lo + len) * ((double)c / n); }

begin_initialization {
  const int nx = GI("nx", 4), ny = GI("ny", 4), nz = GI("nz", 4), px = GI("px", 1), py = GI("py", 1), pz = GI("pz", 1);
  const double d = GD("dx", 1.0), dy = d * GD("dyf", 1.0), dz = d * GD("dzf", 1.0), ax = GD("x0", 0.0), ay = ax + GD("y0d", 0),
               az = ax + GD("z0d", 0);
  const double lx = nx * d, ly = ny * dy, lz = nz * dz;
  seed_entropy(GI("useed", 7));
  num_step = GI("nsteps", 4);
  status_interval = GI("status", 0);
  verbose = GI("verbose", 1);
  clean_div_e_interval = GI("cde", 0);
  clean_div_b_interval = GI("cdb", 0);
  sync_shared_interval = GI("sync", 0);
  num_comm_round = GI("rounds", 3);
  num_div_e_round = GI("nde", 2);
  num_div_b_round = GI("ndb", 2);
  quota = GD("quota", 11);
  checkpt_interval = 0;
  hydro_interval = GI("hydint", 0);
  field_interval = GI("fldint", 0);
  particle_interval = GI("parint", 0);
  define_units(GD("cvac", 1), GD("eps0", 1));
  double dt = GD("cfl", 0.9) * courant_length(lx, ly, lz, nx, ny, nz) / grid->cvac;
  define_timestep(dt, GD("t0", 0), GI("step0", 0));
  int bc = GI("bc", 0), pbc = GI("pbc", 0) ? reflect_particles : absorb_particles;
  if (bc == 0) define_periodic_grid(ax, ay, az, ax + lx, ay + ly, az + lz, nx, ny, nz, px, py, pz);
  else if (bc == 1) define_absorbing_grid(ax, ay, az, ax + lx, ay + ly, az + lz, nx, ny, nz, px, py, pz, pbc);
  else define_reflecting_grid(ax, ay, az, ax + lx, ay + ly, az + lz, nx, ny, nz, px, py, pz);
  if (const int us = GI("uneven", 0)) { // slabs of different thickness: the boundaries between neighbouring slabs are moved
    const int gn[3] = {nx, ny, nz}, gp[3] = {px, py, pz};
    const double lo[3] = {ax, ay, az}, len[3] = {lx, ly, lz};
    int at[3], w[3];
    double b0[3], b1[3];
    for (int x = 0, r = rank(); x < 3; r /= gp[x++]) {
      at[x] = r % gp[x];
      const int s0 = slab(us + x, gn[x], gp[x], at[x]), s1 = slab(us + x, gn[x], gp[x], at[x] + 1);
      w[x] = s1 - s0;
      b0[x] = corner(lo[x], len[x], s0, gn[x]);
      b1[x] = corner(lo[x], len[x], s1, gn[x]);
    }
    grid->x0 = b0[0], grid->y0 = b0[1], grid->z0 = b0[2], grid->x1 = b1[0], grid->y1 = b1[1], grid->z1 = b1[2];
    size_domain(w[0], w[1], w[2]);
    for (int q = 0; q < 6; q++) {
      int n[3] = {at[0], at[1], at[2]}, x = q % 3,
          B = BOUNDARY((q < 3 ? -1 : 1) * (x == 0), (q < 3 ? -1 : 1) * (x == 1), (q < 3 ? -1 : 1) * (x == 2));
      n[x] += q < 3 ? -1 : 1;
      const bool out = n[x] < 0 || n[x] >= gp[x];
      n[x] = (n[x] + gp[x]) % gp[x];
      join_domain(B, n[0] + px * (n[1] + py * n[2]));
      if (!out || bc == 0 || gn[x] == 1) continue;
      set_domain_field_bc(B, bc == 1 ? absorb_fields : anti_symmetric_fields);
      set_domain_particle_bc(B, bc == 1 ? pbc : reflect_particles);
    }
  }
  // per-wall overrides on global walls: mixed boundaries
  for (int w = 0; w < 6; w++) {
    char k[16];
    snprintf(k, 16, "wall%d", w);
    int m = GI(k, 0);
    if (!m) continue;
    static const int B[6] = {BOUNDARY(-1, 0, 0), BOUNDARY(0, -1, 0), BOUNDARY(0, 0, -1), BOUNDARY(1, 0, 0), BOUNDARY(0, 1, 0), BOUNDARY(0, 0, 1)};
    double lo[3] = {grid->x0, grid->y0, grid->z0}, hi[3] = {grid->x1, grid->y1, grid->z1}, gl[3] = {lx, ly, lz}, og[3] = {ax, ay, az},
           hh[3] = {d, dy, dz};
    int a = w % 3;
    bool on = w < 3 ? lo[a] < og[a] + 0.25 * hh[a] : hi[a] > og[a] + gl[a] - 0.25 * hh[a];
    int gn[3] = {nx, ny, nz};
    if (!on || gn[a] == 1) continue; // flat axes stay periodic
    if (m & 1) set_domain_field_bc(B[w], pec_fields);
    if (m & 2) set_domain_field_bc(B[w], absorb_fields);
    if (m & 64) set_domain_field_bc(B[w], pmc_fields);
    if (m & 128) set_domain_field_bc(B[w], symmetric_fields);
    if (m & 4) set_domain_particle_bc(B[w], reflect_particles);
    if (m & 8) set_domain_particle_bc(B[w], absorb_particles);
  }
  material_t *vac = NULL; // a single material fills the whole box (and selects the code's specialised kernels)
  if (int m = GI("onemat", 0)) vac = define_material("fill", 1.5, 2, 1.25, 1.1, 1.25, 1.5, m == 1 ? 0 : 0.3, 0, m == 1 ? 0 : 0.05);
  else vac = define_material("vacuum", 1);
  material_t *diel = NULL, *cond = NULL;
  int mat = GI("mat", 0);
  if (mat) {
    diel = define_material("diel", 2.0, 1.5, 1.25, 1.0, 1.25, 1.1, 0, 0, 0.01);
    cond = define_material("cond", 1.5, 1.2, GD("sigma", 0.3));
  }
  define_field_array(NULL, GD("damp", 0));
  set_region_material(everywhere, vac, vac);
  if (mat & 1) set_region_material((x > ax + 0.4 * lx + 0.13 * d && x < ax + lx - 0.63 * d), diel, diel);
  if (mat & 2) set_region_material((z > az + 0.4 * lz + 0.13 * dz && z < az + lz - 0.63 * dz), cond, cond);
  // species
  user_global_t *g = global;
  memset(g, 0, sizeof *g);
  g->magic = 0x1234567;
  g->nsp = GI("nsp", 2);
  static const double Q[4] = {-1, 1, 0, -1}, M[4] = {1, 25, 1, 1};
  const int ppc = GI("ppc", 4);
  const int64_t ncell = (int64_t)nx * ny * nz, ntot = ncell * ppc;
  const int nr = nproc();
  species_t *sps[4] = {0, 0, 0, 0};
  for (int k = 0; k < g->nsp; k++) {
    double mx = GD("maxnp", 2.0) * ((double)ppc * grid->nx * grid->ny * grid->nz) + GI("maxnp0", 64);
    if (GI("tightnp", 0)) mx = (double)GI("tightnp", 0);
    else if (GI("inj", 0) && k == GI("injsp", 0)) mx += GI("ninj", 4) * (num_step + 2);
    double mm = GI("maxnm", -1);
    if (mm > 0) mm += 4 * 17;
    if (GI("hole", -1) == rank()) mm = GI("holenm", 1);
    if (GI("injnm", 0)) mm = GI("injnm", 0);
    sps[k] = define_species(spname[k], k == 0 && GI("qe0", 0) ? 0.0 : GD(k == 1 ? "qi" : "qx", Q[k]), k == 1 ? GD("mi", M[1]) : M[k], mx, mm,
                            GI(k == 1 ? "sorti" : "sorte", 3), GI("oop", 1));
  }
  // custom boundary handlers
  int cb = GI("cbc", 0);
  if (cb) {
    particle_bc_t *h;
    if (cb == 1) {
      h = define_particle_bc(absorb_tally(species_list, field_array));
    } else {
      h = define_particle_bc(maxwellian_reflux(species_list, entropy));
      for (int k = 0; k < g->nsp; k++) set_reflux_temp(h, sps[k], (float)(GD("ut_para", 0.3) / (1 + k)), (float)(GD("ut_perp", 0.3) / (1 + 2 * k)));
    }
    int w = GI("cbc_wall", 0); // 0: slab region in x upper part; else whole walls
    if (w == 0) set_region_bc((x > ax + GD("slab", 0.75) * lx), leave_unchanged, h, h);
    else {
      const int B[6] = {BOUNDARY(-1, 0, 0), BOUNDARY(0, -1, 0), BOUNDARY(0, 0, -1), BOUNDARY(1, 0, 0), BOUNDARY(0, 1, 0), BOUNDARY(0, 0, 1)};
      const double lo[3] = {grid->x0, grid->y0, grid->z0}, hi[3] = {grid->x1, grid->y1, grid->z1}, og[3] = {ax, ay, az}, gl[3] = {lx, ly, lz},
                   hh[3] = {d, dy, dz};
      const int gn[3] = {nx, ny, nz};
      for (int q = 0; q < 6; q++) {
        int a = q % 3;
        if (!(w >> q & 1) || gn[a] == 1) continue;
        if (q < 3 ? lo[a] < og[a] + 0.25 * hh[a] : hi[a] > og[a] + gl[a] - 0.25 * hh[a]) set_domain_particle_bc(B[q], get_particle_bc_id(h));
      }
    }
  }
  // fields: divergence-free analytic pattern
  double a = GD("f0", 0.01);
  int s0 = GI("wseed", 1);
  const double kx = 2 * M_PI / lx, ky = 2 * M_PI / ly, kz = 2 * M_PI / lz;
  double ph = hu(s0, 1) * 6, b0 = GD("b0", 0.0);
  if (a || b0)
    set_region_field(everywhere, a * sin(ky * y + ph) + a * cos(kz * z), a * cos(kz * z + ph) + GD("edx", 0) * a * sin(ky * y), a * sin(kx * x + ph),
                     b0 + a * cos(ky * y + ph), a * sin(kz * z), a * cos(kx * x + ph) + a * sin(ky * y));
  // particles: decomposition independent, one identity per particle
  double wpe2 = GD("wpe2", 0.05);
  const double w0 = wpe2 > 0 ? wpe2 * d * dy * dz / ppc : 1.0 / 64;
  double tagq = GI("tags", 1) ? ldexp(1.0, -20) : 0;
  g->tagbase = w0;
  float w0f = (float)w0;
  {
    int e;
    double fr = frexp(w0, &e);
    (void)fr;
    if (GI("tags", 1)) w0f = (float)ldexp(1.0, e - 1);
  }
  std::vector<double> loads;
  if (!GI("noload", 0) && GI("hole", -1) != rank()) // a hole: a process that starts empty and expects little
    for (int64_t c = 0; c < ncell; c++) {
      int ix = c % nx, iy = (c / nx) % ny, iz = c / ((int64_t)nx * ny);
      double dens = GD("fillfrac", 1.0);
      if (dens < 1 && hu(s0 * 77 + 5, c) > dens) continue;
      for (int p = 0; p < ppc; p++) {
        int64_t id = c * ppc + p;
        for (int k = 0; k < g->nsp; k++) {
          uint64_t sd = hsh(s0, id * 4 + (k < 2 && GI("neutral", 1) ? 0 : k)), sv = hsh(s0 + 99, id * 4 + k);
          if (k == 1 && GI("empty_ion", 0)) continue;
          if (k == 2 && GI("empty_tr", 0)) continue;
          double fx = hu(sd, 1), fy = hu(sd, 2), fz = hu(sd, 3);
          if (GI("edgepos", 0) && hu(sd, 4) < 0.3) {
            fx = 0;
            if (hu(sd, 5) < 0.5) fy = 0;
            if (hu(sd, 6) < 0.3) fz = 0;
          }
          double ut = GD(k == 1 ? "uti" : "ute", k == 1 ? 0.05 : 0.3);
          double ux = ut * hn(sv, 1) + GD("drx", 0), uy = ut * hn(sv, 2) + GD("dry", 0), uz = ut * hn(sv, 3) + GD("drz", 0);
          double X = ax + (ix + fx) * d, Y = ay + (iy + fy) * dy, Z = az + (iz + fz) * dz;
          if (GI("tightnp", 0) && sps[k]->np >= sps[k]->max_np) continue;
          double wt = (double)w0f * (1.0 + (id + 1) * tagq);
          if (GI("uneqw", 0) && (hsh(s0 + 31, id * 4 + k) >> 20 & 1)) wt *= 3;
          if (GI("recload", 0) && rank() == 0) {
            double v[8] = {(double)k, wt, X, Y, Z, ux, uy, uz};
            loads.insert(loads.end(), v, v + 8);
          }
          inject_particle(sps[k], X, Y, Z, ux, uy, uz, wt, 0, 0);
        }
      }
    }
  if (loads.size()) sim_rec("load", &loads[0], loads.size() * sizeof(double));
  // collisions
  int co = GI("coll", 0), ci = GI("cint", 1);
  if (co & 1) define_collision_op(hard_sphere("hs_ei", sps[0], (float)GD("cr", 0.2), sps[1], (float)GD("cr", 0.2), entropy, GD("csample", 1), ci));
  if (co & 2) define_collision_op(hard_sphere("hs_ee", sps[0], (float)GD("cr", 0.2), sps[0], (float)GD("cr", 0.2), entropy, GD("csample", 1), ci));
  if (co & 4) define_collision_op(langevin((float)GD("ckT", 0.01), (float)GD("cnu", 0.2), sps[0], entropy, ci));
  if (co & 8) define_collision_op(takizuka_abe("ta_ei", sps[0], sps[1], entropy, GD("cvar0", 1e-3), ci));
  if (co & 16) define_collision_op(takizuka_abe("ta_ee", sps[0], sps[0], entropy, GD("cvar0", 1e-3), ci));
  if (co & 32) define_collision_op(large_angle_coulomb("lac", sps[0], sps[1], (float)GD("cb", 0.3), entropy, GD("csample", 1), ci));
  if (co & 64)
    define_collision_op(hard_sphere_fluid("hsf", (float)GD("fn0", 0.5), (float)GD("fvx", 0), (float)GD("fvy", 0), (float)GD("fvz", 0),
                                          (float)GD("fkT", 0.01), (float)GD("fm0", 1), (float)GD("fr0", GD("cr", 0.2)), sps[0], (float)GD("cr", 0.2),
                                          entropy, ci));
  if (co & 128)
    define_collision_op(large_angle_coulomb_fluid("lacf", (float)GD("fn0", 0.5), (float)GD("fvx", 0), (float)GD("fvy", 0), (float)GD("fvz", 0),
                                                  (float)GD("fkT", 0.01), (float)GD("fq0", 1), (float)GD("fm0", 25), sps[0], (float)GD("cb", 0.3),
                                                  entropy, ci));
  // emitter on the surface of a region: a slab along one wall, the inner block, or everything outside the box
  if (GI("emit", 0)) {
    emitter_t *e = child_langmuir(sps[0], interpolator_array, field_array, accumulator_array, entropy, GI("nemit", 1), (float)GD("eut", 0.05),
                                  (float)GD("eperp", 0.05), (float)GD("ethr", 0), (float)GD("enorm", CCUBE));
    const int er = GI("emreg", 0);
    define_surface_emitter(e, (er == 0   ? x < ax + d
                               : er == 1 ? y < ay + dy
                               : er == 2 ? z < az + dz
                               : er == 3 ? x > ax + lx - d
                               : er == 4 ? y > ay + ly - dy
                               : er == 5 ? z > az + lz - dz
                               : er == 6 ? x > ax + d && x < ax + lx - d && y > ay + dy && y < ay + ly - dy && z > az + dz && z < az + lz - dz
                                         : x < ax || x > ax + lx || y < ay || y > ay + ly || z < az || z > az + lz));
  }
  g->seed = s0;
  g->inited = 1;
}

begin_particle_injection {
  user_global_t *g = global;
  int inj = GI("inj", 0);
  if (!inj) return;
  const int nx = GI("nx", 4), ny = GI("ny", 4), nz = GI("nz", 4);
  const double d = GD("dx", 1.0), dy = d * GD("dyf", 1.0), dz = d * GD("dzf", 1.0), ax = GD("x0", 0.0), ay = ax + GD("y0d", 0),
               az = ax + GD("z0d", 0);
  species_t *sp = find_species(spname[GI("injsp", 0)]);
  int n = GI("ninj", 4);
  int wall = GI("injwall", 0);
  for (int i = 0; i < n; i++) { // positions on cell corners, faces and interiors of the global box
    uint64_t s = hsh(hsh(g->seed + 1000, step()), i);
    double f[3] = {hu(s, 1), hu(s, 2), hu(s, 3)};
    int c[3] = {(int)(hu(s, 4) * nx), (int)(hu(s, 5) * ny), (int)(hu(s, 6) * nz)};
    int m = inj & 2 ? (int)(hu(s, 7) * 8) : 0;
    for (int a = 0; a < 3; a++)
      if (m >> a & 1) f[a] = 0;
    if (wall) {
      int a = (int)(hu(s, 8) * 3);
      int N[3] = {nx, ny, nz};
      if (hu(s, 9) < 0.5) {
        c[a] = 0;
        f[a] = 0;
      } else {
        c[a] = N[a];
        f[a] = 0;
      }
    }
    int before = sp->np, nmb = sp->nm;
    if (sp->np + 1 >= sp->max_np) {
      char one = 1;
      recs("full.", step(), "", &one, 1);
      break;
    }
    double age = inj & 4 ? hu(s, 10) : 0, u = GD("injut", 0.3);
    double w = ldexp(1.0, -6) * (1.5 + ((step() % 64) * 16 + i) * ldexp(1.0, -12));
    (void)nmb;
    inject_particle(sp, ax + (c[0] + f[0]) * d, ay + (c[1] + f[1]) * dy, az + (c[2] + f[2]) * dz, u * hn(s, 11), u * hn(s, 12), u * hn(s, 13), w, age,
                    GI("injrhob", 1));
    int got = sp->np - before;
    if (got) g->injected[0]++;
    char k[64];
    snprintf(k, 64, "inj.%lld.%d", (long long)step(), i);
    double v[12] = {(double)got,
                    (double)m,
                    ax + (c[0] + f[0]) * d,
                    ay + (c[1] + f[1]) * dy,
                    az + (c[2] + f[2]) * dz,
                    u * hn(s, 11),
                    u * hn(s, 12),
                    u * hn(s, 13),
                    w,
                    age,
                    (double)GI("injsp", 0),
                    (double)wall};
    sim_rec(k, v, sizeof v);
  }
}
begin_current_injection {
  double a = GD("jant", 0);
  if (!a) return;
  const double ax = GD("x0", 0.0), d = GD("dx", 1.0);
  for (int k = 1; k <= grid->nz + 1; k++)
    for (int j = 1; j <= grid->ny; j++)
      for (int i = 1; i <= grid->nx + 1; i++) {
        double X = grid->x0 + (i - 1) * grid->dx;
        if (GI("nx", 4) == 1 || fabs(X - (ax + d * (GI("nx", 4) / 2))) < 0.25 * d) field(i, j, k).jfy += (float)(a * sin(0.7 * step()));
      }
}
begin_field_injection {
  if (GI("kick", 0) &&
      (int)step() == GI("kick", 0)) { // an error of the kind cleaning exists to remove: divergence in E and in B, the same on every copy
    const double d = GD("dx", 1.0), dy = d * GD("dyf", 1.0), dz = d * GD("dzf", 1.0), ax = GD("x0", 0.0), ay = ax + GD("y0d", 0),
                 az = ax + GD("z0d", 0);
    const double lx = GI("nx", 4) * d, ly = GI("ny", 4) * dy, lz = GI("nz", 4) * dz, e = GD("kick_e", 0), b = GD("kick_b", 0);
    for (int z = 1; z <= grid->nz + 1; z++)
      for (int y = 1; y <= grid->ny + 1; y++)
        for (int x = 1; x <= grid->nx + 1; x++) {
          field_t &f = field(x, y, z);
          const double X = grid->x0 + (x - 1) * grid->dx - ax, Y = grid->y0 + (y - 1) * grid->dy - ay, Z = grid->z0 + (z - 1) * grid->dz - az;
          if (x <= grid->nx) f.ex += (float)(e * sin(2 * M_PI * (X + 0.5 * d) / lx + 0.3));
          if (y <= grid->ny) f.ey += (float)(e * sin(2 * M_PI * (Y + 0.5 * dy) / ly + 0.7));
          if (z <= grid->nz) f.ez += (float)(e * cos(2 * M_PI * (Z + 0.5 * dz) / lz + 0.1));
          if (y <= grid->ny && z <= grid->nz) f.cbx += (float)(b * sin(2 * M_PI * X / lx + 0.2));
          if (z <= grid->nz && x <= grid->nx) f.cby += (float)(b * sin(2 * M_PI * Y / ly + 0.5));
          if (x <= grid->nx && y <= grid->ny) f.cbz += (float)(b * sin(2 * M_PI * Z / lz + 0.9));
        }
  }
  double a = GD("eant", 0);
  if (!a) return; // a driven plane: every copy of the lowest z plane
  const double d = GD("dx", 1.0), dy = d * GD("dyf", 1.0), dz = d * GD("dzf", 1.0), ax = GD("x0", 0.0), ay = ax + GD("y0d", 0),
               az = ax + GD("z0d", 0);
  const int gnz = GI("nz", 4);
  bool per = GI("bc", 0) == 0 || gnz == 1;
  for (int hi = 0; hi < 2; hi++) {
    if (hi ? !(per && grid->z1 > az + (gnz - 0.25) * dz) : !(grid->z0 < az + 0.25 * dz)) continue;
    int k = hi ? grid->nz + 1 : 1;
    for (int j = 1; j <= grid->ny + 1; j++)
      for (int i = 1; i <= grid->nx; i++) field(i, j, k).ex = (float)(a * sin(0.5 * step()));
  }
}
begin_particle_collisions {
  if (GI("ucoll", 0)) sim_note("probe.user_collisions", 1);
}

template <class T> static T *user_copy(const T *p, size_t n) {
  void *v = nullptr;
  if (posix_memalign(&v, 128, n * sizeof(T))) abort();
  memcpy(v, p, n * sizeof(T));
  return (T *)v;
}
#define NV ((size_t)(grid->nx + 2) * (grid->ny + 2) * (grid->nz + 2))
begin_diagnostics {
  user_global_t *g = global;
  const long long s = step();
  const int rec = GI("rec", 1);
  if (s == GI("step0", 0) || GI("recgeom", 0)) {
    float gm[16] = {grid->x0, grid->y0, grid->z0,   grid->x1,   grid->y1, grid->z1, grid->dx, grid->dy,
                    grid->dz, grid->dt, grid->cvac, grid->eps0, 0,        0,        0,        0};
    int gi[16] = {grid->nx, grid->ny, grid->nz, rank(), nproc()};
    for (int i = 0; i < 6; i++) gi[5 + i] = 0;
    static const int B[6] = {BOUNDARY(-1, 0, 0), BOUNDARY(0, -1, 0), BOUNDARY(0, 0, -1), BOUNDARY(1, 0, 0), BOUNDARY(0, 1, 0), BOUNDARY(0, 0, 1)};
    for (int i = 0; i < 6; i++) gi[5 + i] = grid->bc[B[i]];
    recs("geom.", s, "", gm, sizeof gm);
    recs("gint.", s, "", gi, sizeof gi);
  }
  if (GI("modify_probe", 0)) {
    double m[8] = {quota,
                   (double)num_step,
                   (double)checkpt_interval,
                   (double)hydro_interval,
                   (double)field_interval,
                   (double)particle_interval,
                   (double)status_interval,
                   (double)clean_div_e_interval};
    recs("mod.", s, "", m, sizeof m);
  }
  // ---- faults of the deck kind: scheduling noise
  if (GI("yield", 0)) sim_yield();
  // ---- observation of the state
  int every = GI("recevery", 1);
  bool last = num_step > 0 && s >= num_step;
  if (rec && (s % every == 0 || last)) {
    recs("f.", s, "", field_array->f, rec >= 2 ? NV * sizeof(field_t) : 0);
    if (rec == 1) {
      uint64_t h = 1469598103934665603ull;
      const unsigned char *b = (const unsigned char *)field_array->f;
      for (size_t i = 0; i < NV * sizeof(field_t) / 8; i++) {
        uint64_t w;
        memcpy(&w, b + 8 * i, 8);
        h = (h ^ w) * 1099511628211ull;
        h ^= h >> 31;
      }
      recs("fh.", s, "", &h, 8);
    }
    if (GI("recip", 1)) {
      uint64_t h = 1469598103934665603ull;
      for (int k = 1; k <= grid->nz; k++)
        for (int j = 1; j <= grid->ny; j++)
          for (int i = 1; i <= grid->nx; i++) {
            const unsigned char *b = (const unsigned char *)&interpolator(i, j, k);
            for (int q = 0; q < 9; q++) {
              uint64_t w;
              memcpy(&w, b + 8 * q, 8);
              h = (h ^ w) * 1099511628211ull;
              h ^= h >> 31;
            }
          }
      recs("ip.", s, "", &h, 8);
    }
    for (species_t *sp = species_list; sp; sp = sp->next) {
      char k[64];
      snprintf(k, 64, "p%d.", (int)sp->id);
      int np = sp->np, nm = sp->nm;
      int v[4] = {np, nm, sp->max_np, sp->max_nm};
      char k2[64];
      snprintf(k2, 64, "n%d.", (int)sp->id);
      recs(k2, s, "", v, rec >= 2 || GI("reccap", 1) ? sizeof v : 8);
      if (rec >= 2) recs(k, s, "", sp->p, (size_t)np * sizeof(particle_t));
      else {
        uint64_t h = 77;
        const unsigned char *b = (const unsigned char *)sp->p;
        for (size_t i = 0; i < (size_t)np * sizeof(particle_t) / 8; i++) {
          uint64_t w;
          memcpy(&w, b + 8 * i, 8);
          h = (h ^ w) * 1099511628211ull;
          h ^= h >> 31;
        }
        char k3[64];
        snprintf(k3, 64, "ph%d.", (int)sp->id);
        recs(k3, s, "", &h, 8);
      }
    }
    if (particle_bc_list && GI("cbc", 0) == 1) {
      int *t = get_absorb_tally(particle_bc_list);
      if (t) recs("tally.", s, "", t, sizeof(int) * g->nsp);
    }
    if (GI("recstate", 0)) {
      recs("glob.", s, "", g, sizeof *g);
      double tt[2] = {time(), (double)step()};
      recs("time.", s, "", tt, sizeof tt);
    }
  }
  if (GI("recrng", 0) && s % GI("recrng", 1) == 0) {
    double v[256];
    int n = 0;
    for (int i = 0; i < entropy->n_rng && n < 56; i++) {
      v[n++] = drand(rng(i));
      v[n++] = frand(rng(i));
    }
    recs("rngl.", s, "", v, n * sizeof(double));
    n = 0;
    for (int i = 0; i < sync_entropy->n_rng && n < 56; i++) {
      v[n++] = drand(sync_rng(i));
      v[n++] = (double)i32rand(sync_rng(i));
    }
    if (GI("recrngn", 0))
      for (int i = 0; i < sync_entropy->n_rng && n < 120; i++) { v[n++] = normal(sync_rng(i), 0, 1); }
    recs("rngs.", s, "", v, n * sizeof(double));
  }
  if (GI("rngx", 0) && s == 0) {
    std::string e = rngx_run(GI("rngx", 0) + rank());
    recs("rngx.", s, "", e.data(), e.size());
  }
  if (GI("recen", 0)) {
    double en[6 + 4];
    memset(en, 0, sizeof en);
    field_array->kernel->energy_f(en, field_array);
    for (species_t *sp = species_list; sp; sp = sp->next)
      if (sp->id < 4) en[6 + sp->id] = energy_p(sp, interpolator_array);
    recs("en.", s, "", en, sizeof en);
  }
  if (GI("poy", 0)) {
    double v = poynting_flux(GD("poy_e0", 1.0));
    recs("poy.", s, "", &v, sizeof v);
  }
  if (GI("tpx", 0)) {
    std::vector<int> v;
    tpx_run(GI("tpx", 0), GI("tpxwork", 3), v);
    if (GI("tpxown", 0)) tpx_run(GI("tpx", 0), GI("tpxwork", 3), v, 1);
    if (GI("tpxser", 0)) tpx_run(GI("tpx", 0), GI("tpxwork", 3), v, 2);
    recs("tpx.", s, "", &v[0], v.size() * sizeof(int));
  }
  if (GI("uptime", 0)) {
    double u = uptime();
    recs("up.", s, "", &u, sizeof u);
  }
  if (GI("quota_stop", 0) && s > 0) {
    double u = uptime();
    int over = u > quota;
    char o = (char)over;
    recs("stop.", s, "", &o, 1);
    if (over) {
      checkpt("ck", (int)s);
      recs("ckpt.", s, "", &o, 1);
      num_step = (int)s;
    }
  }
  // ---- collective messaging exercise
  if (GI("mpx", 0) && s % GI("mpx", 1) == 0) {
    int n = 1 + (int)(hsh(g->seed, s) % 5);
    double a[8], b[8];
    int ia[8], ib[8];
    for (int i = 0; i < n; i++) {
      a[i] = (double)(int)(hsh(rank() + 31, s * 8 + i) % 1000);
      ia[i] = (int)(hsh(rank() + 77, s * 8 + i) % 1000);
    }
    mp_allsum_d(a, b, n);
    recs("mpx.d.", s, "", b, n * sizeof(double));
    mp_allsum_i(ia, ib, n);
    recs("mpx.i.", s, "", ib, n * sizeof(int));
    int gi[8 * 16];
    mp_allgather_i(ia, gi, n);
    recs("mpx.g.", s, "", gi, sizeof(int) * n * nproc());
    int64_t la[8], lb[8 * 16];
    for (int i = 0; i < n; i++) la[i] = ((int64_t)ia[i] << 33) + rank();
    mp_allgather_i64(la, lb, n);
    recs("mpx.l.", s, "", lb, sizeof(int64_t) * n * nproc());
    unsigned char uc[8], ur[8 * 16];
    memset(ur, 0, sizeof ur);
    for (int i = 0; i < n; i++) uc[i] = (unsigned char)(ia[i] * 3);
    mp_gather_uc(uc, ur, n);
    if (rank() == 0) recs("mpx.u.", s, "", ur, n * nproc());
    // point-to-point messages through growing buffers, on three ports at once
    mp_t *m = new_mp(3);
    const int P = nproc();
    for (int q = 0; q < 3; q++) {
      auto size = [&](int r, int p) { return 1 + (int)(hsh(g->seed, 1000 + (((s * 4 + q) * 4 + p) * 16 + r)) % 300); };
      auto byte = [&](int r, int p, int i) { return (char)hsh(r * 8 + p, (s * 4 + q) * 512 + i); };
      for (int p = 0; p < 3; p++) {
        int from = (rank() + P * 4 - 1 - p) % P;
        mp_size_recv_buffer(m, p, size(from, p));
        mp_begin_recv(m, p, size(from, p), from, 100 + p);
      }
      for (int p = 0; p < 3; p++) {
        int to = (rank() + 1 + p) % P, n = size(rank(), p), h = 1 + n / 3;
        mp_size_send_buffer(m, p, h);
        for (int i = 0; i < h && i < n; i++) ((char *)mp_send_buffer(m, p))[i] = byte(rank(), p, i);
        mp_size_send_buffer(m, p, n);
        for (int i = h; i < n; i++) ((char *)mp_send_buffer(m, p))[i] = byte(rank(), p, i);
        mp_begin_send(m, p, n, to, 100 + p);
      }
      for (int p = 0; p < 3; p++) {
        mp_end_recv(m, p);
        char k[32];
        snprintf(k, 32, ".%d.%d", q, p);
        recs("mpx.p.", s, k, mp_recv_buffer(m, p), size((rank() + P * 4 - 1 - p) % P, p));
      }
      for (int p = 0; p < 3; p++) mp_end_send(m, p);
    }
    delete_mp(m);
    sim_mark(1000 + 2 * (int)s);
    barrier();
    sim_mark(1001 + 2 * (int)s);
  }
  // ---- turnstiles of different widths one after the other
  for (int t = 0; t < GI("turns", 0); t++) {
    int id = (int)s * 8 + t, wd = 1 + (int)(hsh(g->seed, 5000 + id) % 4);
    BEGIN_TURNSTILE(wd) {
      sim_mark(10000 + 2 * id);
      sim_yield();
      sim_mark(10001 + 2 * id);
    }
    END_TURNSTILE;
  }
  // ---- parts of the simulation that come into being while it runs
  if (s > 0 && GI("late", 0) == s) {
    define_collision_op(langevin(0.02f, 0.1f, find_species(spname[0]), entropy, 1));
    if (g->nsp > 1) define_collision_op(takizuka_abe("late", find_species(spname[0]), find_species(spname[1]), entropy, 1e-3, 1));
  }
  // ---- checkpoints
  int ck = GI("ckpt", 0);
  if (ck && s > 0 && s % ck == 0 && !(GI("ckpt_skip0", 0) && s == g->nrest)) {
    g->nrest = (int)s;
    char done[2] = {1, 0};
    if (GI("ckpt_alt", 0)) checkpt("ck", (int)((s / ck) & 1));
    else checkpt("ck", (int)s);
    recs("ckpt.", s, "", done, 1);
    if (GI("ckpt_barrier", 1)) barrier();
    sim_note("probe.checkpoints", 1);
  }
  // ---- dumps
  int du = GI("dump", 0);
  if (du && s % GI("dumpint", 1) == 0) {
    int tn = GI("turn", 0);
    if (tn > 0) { recs("turn.wait.", s, "", &tn, 4); }
    if (du & 64) {
      if (s == 0) {
        dump_mkdir("flds");
        dump_mkdir("hyd");
        dump_mkdir("rundata");
      }
      barrier();
    }
    if (du & 1) dump_energies("energies", s == 0 ? 0 : 1);
    if (s == 0 && (du & 2)) {
      dump_materials("materials");
      dump_species("species");
      dump_grid("grid");
    }
#define DBODY                                                                                                                                        \
  {                                                                                                                                                  \
    if (du & 4) dump_fields("fields", 1);                                                                                                            \
    if ((du & 4) && GI("dumplast", 0)) dump_fields("lfields", 0);                                                                                    \
    if (du & 16)                                                                                                                                     \
      for (int k = 0; k < g->nsp; k++) {                                                                                                             \
        char nm[32];                                                                                                                                 \
        snprintf(nm, 32, "part_%d", k);                                                                                                              \
        dump_particles(spname[k], nm, 1);                                                                                                            \
        snprintf(nm, 32, "lpart_%d", k);                                                                                                             \
        if (GI("dumplast", 0)) dump_particles(spname[k], nm, 0);                                                                                     \
      }                                                                                                                                              \
  }
    if (tn > 0) {
      BEGIN_TURNSTILE(tn) {
        sim_mark(1);
        sim_yield();
        DBODY sim_yield();
        sim_mark(2);
      }
      END_TURNSTILE;
    } else DBODY
    if ((du & 4) && GI("dumpuser", 0)) { // fields the deck prepared itself
      field_t *u = user_copy(field_array->f, NV);
      for (size_t i = 0; i < NV; i++) u[i].cby *= 2;
      dump_fields("ufields", 1, u);
      free(u);
    }
    if (du & 8)
      for (int k = 0; k < g->nsp; k++) {
        char nm[32];
        snprintf(nm, 32, "hydro_%d", k);
        dump_hydro(spname[k], nm, 1);
        if (rec >= 2) { recs("hy", k, (std::string(".") + std::to_string(s)).c_str(), hydro_array->h, NV * sizeof(hydro_t)); }
        snprintf(nm, 32, "lhydro_%d", k);
        if (GI("dumplast", 0)) dump_hydro(spname[k], nm, 0);
        if (GI("dumpuser", 0)) { // moments the deck prepared itself
          hydro_t *u = user_copy(hydro_array->h, NV);
          for (size_t i = 0; i < NV; i++) u[i].txy *= 2;
          snprintf(nm, 32, "uhydro_%d", k);
          dump_hydro(spname[k], nm, 1, u);
          free(u);
        }
      }
    if (du & 32) { // strided dumps
      DumpParameters dp;
      memset(dp.name, 0, 128);
      dp.stride_x = GI("sx", 1);
      dp.stride_y = GI("sy", 1);
      dp.stride_z = GI("sz", 1);
      dp.format = GI("dfmt", 0) ? band_interleave : band;
      strcpy(dp.name, "fld");
      strcpy(dp.baseDir, "flds");
      strcpy(dp.baseFileName, "fld");
      dp.output_vars.clear(0xffffffffu);
      dp.output_variables((uint32_t)GI("fvars", 0xffff));
      field_dump(dp);
      DumpParameters hp;
      memset(hp.name, 0, 128);
      hp.stride_x = dp.stride_x;
      hp.stride_y = dp.stride_y;
      hp.stride_z = dp.stride_z;
      hp.format = dp.format;
      strcpy(hp.name, "hyd");
      strcpy(hp.baseDir, "hyd");
      strcpy(hp.baseFileName, "hyd");
      hp.output_vars.clear(0xffffffffu);
      hp.output_variables((uint32_t)GI("hvars", 0x3fff));
      for (int k = 0; k < g->nsp; k++) {
        char bn[32];
        snprintf(bn, 32, "hyd%d", k);
        strcpy(hp.baseFileName, bn);
        hydro_dump(spname[k], hp);
        if (rec >= 2) recs("hs", k, (std::string(".") + std::to_string(s)).c_str(), hydro_array->h, NV * sizeof(hydro_t));
        if (GI("dumpuser", 0)) { // the deck's own moments under a step number of its own
          hydro_t *u = user_copy(hydro_array->h, NV);
          for (size_t i = 0; i < NV; i++) u[i].jy *= 2;
          snprintf(bn, 32, "uhyd%d", k);
          strcpy(hp.baseFileName, bn);
          hydro_dump(spname[k], hp, u, 7000 + s);
          free(u);
        }
      }
      if (GI("dumpuser", 0)) {
        field_t *u = user_copy(field_array->f, NV);
        for (size_t i = 0; i < NV; i++) u[i].ez *= 2;
        strcpy(dp.baseFileName, "ufld");
        field_dump(dp, u, 5000 + s);
        strcpy(dp.baseFileName, "fld");
        free(u);
      }
      if (s == 0) {
        std::vector<DumpParameters *> v;
        DumpParameters hv[4];
        v.push_back(&dp);
        for (int k = 0; k < g->nsp; k++) {
          hv[k] = hp;
          hv[k].output_vars.clear(0xffffffffu);
          hv[k].output_variables((uint32_t)(k == 0 ? GI("hvars", 0x3fff) : k == 1 ? 0x0011 : 0x018f));
          strcpy(hv[k].baseDir, k == 1 ? "hydi" : "hyd");
          snprintf(hv[k].baseFileName, sizeof hv[k].baseFileName, "hyd%d", k);
          v.push_back(&hv[k]);
        }
        global_header("global", v);
        char fl[512], hl[512];
        create_field_list(fl, dp);
        create_hydro_list(hl, hp);
        recs("dump.lf.", 0, "", fl, strlen(fl));
        recs("dump.lh.", 0, "", hl, strlen(hl));
      }
    }
    char one = 1;
    recs("dump.", s, "", &one, 1);
  }
}
