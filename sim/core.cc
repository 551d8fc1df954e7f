// Fibers, scheduler, decisions, memory arenas, rank images.
#include "sim.hh"
#include <cstdarg>
#include <cerrno>
#include <cstdlib>
#include <csignal>
#include <cmath>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <ucontext.h>
#include "include/sim_api.h"

Sim *sim;
World *W;
Fiber *cur;
const char *kind_name[K_N] = {"switch",   "next",  "latency",   "leave", "rendezvous", "sendread", "quantum",
                              "spurious", "stall", "wakeorder", "short", "survive",    "ack"};

std::string strf(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  char b[4096];
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static FILE *real_err = stderr;
void sim_fatal(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  fprintf(real_err, "SIMFATAL: ");
  vfprintf(real_err, f, ap);
  fprintf(real_err, "\n");
  fflush(real_err);
  _exit(70);
}
bool in_sim() { return cur != nullptr; }

// --------------------------------------------------------------- policies
std::string Policy::str() const {
  if (!random) return "canonical";
  return strf("sw=%g nx=%g lat=%g/%g clat=%g rdv=%g rdt=%g ack=%g spur=%g wake=%g stall=%g/%g short=%g after=%d q=%g w=%zu", p_switch, p_next, p_lat,
              lat_scale, p_clat, p_eager, p_rdt, p_ack, p_spur, p_wake, p_stall, stall_scale, p_short, after, quantum, weight.size());
}
Policy random_policy(Rng &r, int nrank, bool preempt) {
  Policy p;
  p.random = true;
  static const std::vector<double> ps = {0, 0, 0.01, 0.05, 0.2, 0.5, 0.9};
  p.p_switch = r.pick(ps);
  p.p_next = r.pick(std::vector<double>{0, 0.1, 0.5, 1});
  p.p_lat = r.pick(std::vector<double>{0, 0.05, 0.3, 0.8});
  p.lat_scale = std::pow(10.0, 2 + 5 * r.uni());
  p.p_clat = r.pick(std::vector<double>{0, 0.2, 0.8});
  p.p_eager = r.pick(std::vector<double>{0, 0.5, 1});
  p.p_rdt = r.pick(std::vector<double>{0, 0.5, 1});
  p.p_ack = r.pick(std::vector<double>{0, 0.3, 0.9});
  p.p_spur = r.pick(std::vector<double>{0, 0, 0.05, 0.4});
  p.p_wake = r.pick(std::vector<double>{0, 0.5});
  p.p_stall = r.pick(std::vector<double>{0, 0, 0.002, 0.02});
  p.stall_scale = std::pow(10.0, 2 + 5 * r.uni());
  p.p_short = r.pick(std::vector<double>{0, 0.1, 0.5});
  if (r.chance(0.4)) {
    for (int i = 0; i < nrank; i++) p.weight.push_back(r.pick(std::vector<double>{1, 1, 0.1, 0.005, 20}));
  }
  if (preempt) p.quantum = std::pow(10.0, 1 + 3.5 * r.uni());
  if (p.p_switch == 0 && p.p_next == 0 && p.p_lat == 0) p.p_next = 1;
  return p;
}
bool decide_planned(Kind k, u64 idx, i64 &v) {
  if (!sim->plan.active) return false;
  auto it = W->plan[k].find(idx);
  if (it != W->plan[k].end()) v = it->second;
  return true;
}
void decide_note(Kind k, u64 idx, i64 v) { sim->recorded.push_back(Dev{W->exec, k, idx, v}); }
void flag(const std::string &s) {
  if (!W) return;
  if (W->x->flags.size() < 40) W->x->flags.push_back(cur ? strf("rank %d: ", cur->rank) + s : s);
}

// ------------------------------------------------------------------ fibers
extern "C" void sim_swap(void **save, void *load);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $16, %rsp
  stmxcsr (%rsp)
  fnstcw 8(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 8(%rsp)
  addq $16, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");
static void fiber_main() {
  Fiber *f = cur;
  f->entry();
  f->done = true;
  f->runnable = false;
  void *dummy;
  cur = nullptr;
  (void)dummy;
  sim_swap(&f->sp, W->sched_sp);
  __builtin_trap();
}
static std::map<size_t, std::vector<char *>> stack_pool;
static char *get_stack(size_t n) {
  auto &v = stack_pool[n];
  if (!v.empty()) {
    char *p = v.back();
    v.pop_back();
    return p;
  }
  char *p = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) sim_fatal("stack mmap");
  mprotect(p, 4096, PROT_NONE);
  return p;
}
Fiber *spawn(int rank, std::function<void()> fn, size_t stk) {
  auto f = std::make_unique<Fiber>();
  f->id = (int)W->fibers.size();
  f->rank = rank;
  f->entry = std::move(fn);
  f->stksz = stk;
  f->stk = get_stack(stk);
  u64 *top = (u64 *)(f->stk + stk - 64); // 16 aligned
  *--top = 0;
  *--top = (u64)(void *)fiber_main; // ret address; rsp%16==8 at entry
  for (int i = 0; i < 6; i++) *--top = 0;
  top -= 2;
  ((u32 *)top)[0] = 0x1f80;
  ((u32 *)top)[1] = 0;
  ((u32 *)top)[2] = 0x037f;
  ((u32 *)top)[3] = 0;
  f->sp = top;
  Fiber *r = f.get();
  W->fibers.push_back(std::move(f));
  double q = W->o->pol.quantum;
  r->quantum = decide(K_PQ, -1, [q](Rng &g) -> i64 { return q > 0 ? 1 + (i64)(-q * std::log(1 - g.uni())) : -1; });
  return r;
}
static Fiber *next_fiber;
static void to_sched() {
  Fiber *f = cur;
  f->err = errno;
  cur = nullptr;
  sim_swap(&f->sp, W->sched_sp);
  errno = f->err;
}
static int runnables(Fiber **out, Fiber *excl) {
  int n = 0;
  for (auto &p : W->fibers)
    if (p->runnable && !p->done && p.get() != excl) out[n++] = p.get();
  return n;
}
static int wpick(Rng &g, Fiber **v, int n) {
  auto &w = W->o->pol.weight;
  if (w.empty()) return (int)g.below(n);
  double t = 0;
  for (int i = 0; i < n; i++) t += w[v[i]->rank];
  double u = g.uni() * t;
  for (int i = 0; i < n; i++) {
    u -= w[v[i]->rank];
    if (u < 0) return i;
  }
  return n - 1;
}
static void run_events() {
  while (!W->ev.empty() && W->ev.top().t <= W->now) {
    auto fn = W->ev.top().fn;
    W->ev.pop();
    fn();
  }
}
void wakeup(Fiber *f) {
  if (!f->done) {
    f->runnable = true;
    f->what = "";
  }
}
void block(const char *what) {
  cur->runnable = false;
  cur->what = what;
  to_sched();
}
static void account(int code) {
  RankCtx *r = RC();
  r->points++;
  W->x->points++;
  W->now += 20;
  W->log(code * 131 + cur->rank, cur->tid);
  if ((i64)W->x->points > W->o->max_points || (W->o->max_ns && W->now - W->x->start_ns > W->o->max_ns)) {
    W->x->stepcap = true;
    W->stop = true;
    to_sched();
  }
  run_events();
  if (W->o->kill_rank == r->rank && r->points == W->o->kill_at) {
    W->x->faults_fired++;
    sim->note("fault.kill");
    rank_end(E_KILLED, 137);
  }
}
static Fiber *pool_[1024];
void point(int code) {
  account(code);
  auto &p = W->o->pol;
  {
    i64 st = decide(K_STALL, 0,
                    [&](Rng &g) -> i64 { return p.p_stall > 0 && g.chance(p.p_stall) ? 1 + (i64)(-p.stall_scale * std::log(1 - g.uni())) : 0; });
    if (st > 0) {
      sim->note("fault.stall");
      Fiber *f = cur;
      W->at(W->now + st, [f] { wakeup(f); });
      block("stalled");
      return;
    }
  }
  if (W->fibers.size() > 1) {
    i64 sw = decide(K_SW, 0, [&](Rng &g) -> i64 {
      if (p.p_switch <= 0 || !g.chance(p.p_switch)) return 0;
      int n = runnables(pool_, cur);
      return n ? 1 + wpick(g, pool_, n) : 0;
    });
    if (sw > 0) {
      int n = runnables(pool_, cur);
      if (n) {
        next_fiber = pool_[(sw - 1) % n];
        W->x->switches++;
        to_sched();
      }
    }
  }
}
static Fiber *rr_next(Fiber **v, int n, Fiber *last) {
  if (last)
    for (int i = 0; i < n; i++)
      if (v[i]->id > last->id) return v[i];
  return v[0];
}
static Fiber *choose_next(Fiber *excl) {
  int n = runnables(pool_, excl);
  if (!n) return nullptr;
  i64 v = 0;
  auto &p = W->o->pol;
  if (n > 1) v = decide(K_NX, 0, [&](Rng &g) -> i64 { return g.chance(p.p_next) ? 1 + wpick(g, pool_, n) : 0; });
  return v > 0 ? pool_[(v - 1) % n] : rr_next(pool_, n, W->last);
}
void poll_point(int code) {
  account(code);
  cur->spin++;
  Fiber *n = choose_next(cur);
  if (!n) {
    if (!W->ev.empty()) {
      W->now = std::max(W->now, W->ev.top().t);
      run_events();
    }
    return;
  }
  next_fiber = n;
  to_sched();
}
void preempt_point() { // instrumented access: quantum exhausted
  double q = W->o->pol.quantum;
  Fiber *c = cur;
  c->quantum = decide(K_PQ, -1, [q](Rng &g) -> i64 { return 1 + (i64)(-q * std::log(1 - g.uni())); });
  if (c->nopreempt) return;
  W->x->preempts++;
  account(99);
  i64 sw = decide(K_SW, 0, [&](Rng &g) -> i64 {
    int n = runnables(pool_, cur);
    return n ? 1 + wpick(g, pool_, n) : 0;
  });
  if (sw > 0) {
    int n = runnables(pool_, cur);
    if (n) {
      next_fiber = pool_[(sw - 1) % n];
      W->x->switches++;
      to_sched();
    }
  }
}
void rank_end(EndState st, int code) {
  RankCtx *r = RC();
  Fiber *me = cur;
  r->res->st = st;
  r->res->code = code;
  r->dead = true;
  bool unjoined = false;
  for (auto &f : W->fibers)
    if (f->rank == r->rank) {
      if (f.get() != me && !f->done && !f->omp) unjoined = true;
      f->done = true;
      f->runnable = false;
    }
  if (unjoined && st == E_RETURNED && code == 0) flag("threads still alive when the program returned");
  bool bad = st == E_ABORTED || st == E_CRASHED || st == E_KILLED || code != 0 || !r->res->finalized;
  if (st == E_RETURNED && code == 0 && !r->res->finalized) flag("program returned without MPI_Finalize");
  mpi_rank_dead(r->rank);
  if (bad && W->after_left < 0) {
    int a = W->o->pol.after;
    W->after_left = decide(K_AFTER, 0, [a](Rng &g) -> i64 { return a ? (i64)g.below(a) : 0; });
  }
  cur = nullptr;
  sim_swap(&me->sp, W->sched_sp);
  __builtin_trap();
}
static void crash_tramp() {
  flag("crashed by a memory fault or trap (signal)");
  rank_end(E_CRASHED, 139);
}
static char crash_stack[262144] __attribute__((aligned(64)));
static void on_sig(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_;
  if (!cur || !W) {
    dprintf(2, "SIMFATAL: signal %d outside rank code addr %p ip %llx\n", sig, si->si_addr, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
    _exit(71);
  }
  if (sig == SIGVTALRM) {
    dprintf(2, "SIMHANG: no scheduling point reached (rank %d)\n", cur->rank);
    _exit(72);
  }
  if (getenv("SIM_TRACE_CRASH"))
    dprintf(2, "rank %d sig %d addr %p ip %llx\n", cur->rank, sig, si->si_addr, (unsigned long long)uc->uc_mcontext.gregs[REG_RIP]);
  uc->uc_mcontext.gregs[REG_RIP] = (greg_t)(void *)crash_tramp;
  uc->uc_mcontext.gregs[REG_RSP] = (greg_t)(((u64)crash_stack + sizeof crash_stack - 4096) & ~63ull) - 8;
}
static void install_signals() {
  static bool done = false;
  if (done) return;
  done = true;
  stack_t ss;
  ss.ss_sp = malloc(65536);
  ss.ss_size = 65536;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_sig;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

// ------------------------------------------------------------------ images
struct Image {
  void *h;
  std::vector<std::pair<char *, std::string>> segs;
};
static std::map<std::string, std::vector<Image>> images;
static std::string lib_dir, scratch_dir;
void set_lib_dir(const std::string &d, const std::string &s) {
  lib_dir = d;
  scratch_dir = s;
}
static int phdr_cb(struct dl_phdr_info *i, size_t, void *d) {
  auto *a = (std::pair<ElfW(Addr), std::vector<std::pair<char *, size_t>> *> *)d;
  if (i->dlpi_addr != a->first) return 0;
  char *rlo = nullptr, *rhi = nullptr;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      rlo = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      rhi = rlo + i->dlpi_phdr[k].p_memsz;
      rlo = (char *)((u64)rlo & ~4095ull);
      rhi = (char *)((u64)rhi & ~4095ull);
    }
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
    char *lo = (char *)i->dlpi_addr + p.p_vaddr, *hi = lo + p.p_memsz;
    if (rlo && rlo <= lo && rhi > lo) lo = std::min(rhi, hi);
    if (lo < hi) a->second->push_back({lo, (size_t)(hi - lo)});
  }
  return 1;
}
void lib_ensure(const std::string &lib, int n) {
  auto &v = images[lib];
  while ((int)v.size() < n) {
    std::string src = lib_dir + "/librank_" + lib + ".so", dst = scratch_dir + strf("/r_%s_%zu.so", lib.c_str(), v.size());
    int a = open(src.c_str(), O_RDONLY), b = open(dst.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0700);
    if (a < 0 || b < 0) sim_fatal("cannot copy %s to %s", src.c_str(), dst.c_str());
    static char buf[1 << 20];
    ssize_t r;
    while ((r = read(a, buf, sizeof buf)) > 0)
      if (write(b, buf, r) != r) sim_fatal("scratch full");
    close(a);
    close(b);
    Image im;
    im.h = dlopen(dst.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!im.h) sim_fatal("dlopen: %s", dlerror());
    for (auto &q : images)
      for (auto &z : q.second)
        if (z.h == im.h) sim_fatal("image sharing");
    struct link_map *lm;
    dlinfo(im.h, RTLD_DI_LINKMAP, &lm);
    std::vector<std::pair<char *, size_t>> segs;
    std::pair<ElfW(Addr), std::vector<std::pair<char *, size_t>> *> arg{lm->l_addr, &segs};
    dl_iterate_phdr(phdr_cb, &arg);
    for (auto &s : segs) im.segs.push_back({s.first, std::string(s.first, s.second)});
    v.push_back(std::move(im));
  }
}

// ------------------------------------------------------------------ memory
struct Hdr {
  u64 size, magic, seq, pad;
};
static const u64 MG = 0x51a110c0ffee, MF = 0xdeadf4eedeadull;
static const size_t ARENA = 1ull << 30;
static void fill_mem(char *p, size_t n, u64 pat) { memset(p, (int)(pat & 0xff), n); }
extern "C" void *__wrap_malloc(size_t n) {
  if (!cur) return malloc(n);
  RankCtx *r = RC();
  u64 k = r->nmalloc++;
  if (W->o->oom_rank == r->rank && W->o->oom_at >= 0 && ((i64)k == W->o->oom_at || ((i64)k > W->o->oom_at && W->o->oom_sticky))) {
    if ((i64)k == W->o->oom_at) {
      W->x->faults_fired++;
      sim->note("fault.malloc");
    }
    errno = ENOMEM;
    return nullptr;
  }
  size_t tot = sizeof(Hdr) + ((n + 15) & ~15ull) + 32;
  if (n > ARENA || r->ap + tot > r->aend) {
    errno = ENOMEM;
    sim->note("arena.exhausted");
    return nullptr;
  }
  Hdr *h = (Hdr *)r->ap;
  r->ap += tot;
  h->size = n;
  h->magic = MG ^ (u64)h;
  h->seq = k;
  r->live++;
  char *p = (char *)(h + 1);
  fill_mem(p, n, W->o->fill);
  memset(p + n, 0xa5, tot - sizeof(Hdr) - n);
  return p;
}
static bool arena_ptr(void *p) { return (u64)p >= 0x200000000000ull && (u64)p < 0x300000000000ull; }
static bool red_ok(Hdr *h) {
  char *p = (char *)(h + 1);
  size_t t = ((h->size + 15) & ~15ull) + 32;
  for (size_t i = h->size; i < t; i++)
    if ((u8)p[i] != 0xa5) return false;
  return true;
}
extern "C" void __wrap_free(void *p) {
  if (!p) return;
  if (!arena_ptr(p)) {
    free(p);
    return;
  }
  if (!cur) return;
  RankCtx *r = RC();
  Hdr *h = (Hdr *)p - 1;
  if ((char *)p < r->arena || (char *)p >= r->ap) {
    flag("free() of memory that does not belong to this process");
    return;
  }
  if (h->magic == (MF ^ (u64)h)) {
    flag("double free");
    return;
  }
  if (h->magic != (MG ^ (u64)h)) {
    flag("free() of a pointer not from malloc, or heap corrupted");
    return;
  }
  if (!red_ok(h)) flag("write past the end of an allocation");
  h->magic = MF ^ (u64)h;
  fill_mem((char *)p, h->size, ~W->o->fill);
  r->live--;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  if (!cur) return calloc(a, b);
  void *p = __wrap_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
extern "C" void *__wrap_realloc(void *q, size_t n) {
  if (!cur || (q && !arena_ptr(q))) return realloc(q, n);
  void *p = __wrap_malloc(n);
  if (p && q) {
    Hdr *h = (Hdr *)q - 1;
    memcpy(p, q, std::min(n, (size_t)h->size));
  }
  if (p) __wrap_free(q);
  return p;
}
extern "C" int __wrap_posix_memalign(void **o, size_t a, size_t n) {
  if (!cur) return posix_memalign(o, a, n);
  RankCtx *r = RC();
  u64 v = (u64)r->ap + sizeof(Hdr);
  u64 pad = (a - (v & (a - 1))) & (a - 1);
  if (pad) {
    if (pad < sizeof(Hdr) + 48) pad += a;
    size_t t = pad - sizeof(Hdr) - 32;
    r->nmalloc--;
    void *d = __wrap_malloc(t & ~15ull);
    if (d) {
      Hdr *h = (Hdr *)d - 1;
      h->magic = MF ^ (u64)h;
      fill_mem((char *)d, h->size, ~W->o->fill);
      r->live--;
    }
  }
  *o = __wrap_malloc(n);
  return *o ? 0 : ENOMEM;
}
extern "C" void *__wrap_aligned_alloc(size_t a, size_t n) {
  void *p = nullptr;
  if (__wrap_posix_memalign(&p, a, n)) return nullptr;
  return p;
}
extern "C" void *__wrap_memalign(size_t a, size_t n) { return __wrap_aligned_alloc(a, n); }
extern "C" void *__wrap__Znwm(size_t n) {
  if (!n) n = 1;
  void *p = __wrap_malloc(n);
  if (!p) {
    if (cur) { rank_end(E_ABORTED, 134); }
    abort();
  }
  return p;
}
extern "C" void *__wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }

static void check_arena(RankCtx *r) {
  for (char *p = r->arena; p < r->ap;) {
    Hdr *h = (Hdr *)p;
    bool live = h->magic == (MG ^ (u64)h), freed = h->magic == (MF ^ (u64)h);
    if (!live && !freed) {
      flag(strf("rank %d: heap block header overwritten", r->rank));
      return;
    }
    if (live && !red_ok(h)) {
      flag(strf("rank %d: write past the end of allocation #%llu (%llu bytes)", r->rank, (unsigned long long)h->seq, (unsigned long long)h->size));
      return;
    }
    if (freed) {
      u8 e = (u8)(~W->o->fill & 0xff);
      u8 *q = (u8 *)(h + 1);
      size_t bad = 0;
      for (size_t i = 0; i < h->size; i++)
        if (q[i] != e) {
          bad = i + 1;
          break;
        }
      if (bad) {
        flag(strf("rank %d: write after free of allocation #%llu (%llu bytes) at offset %zu", r->rank, (unsigned long long)h->seq,
                  (unsigned long long)h->size, bad - 1));
        return;
      }
    }
    p += sizeof(Hdr) + ((h->size + 15) & ~15ull) + 32;
  }
}

// --------------------------------------------------------------- execution
std::string Exec::summary() const {
  static const char *n[] = {"running", "returned", "exit", "abort", "crash", "killed"};
  std::string s;
  for (size_t i = 0; i < r.size(); i++) s += strf("%s%s(%d)", i ? "," : "", n[r[i].st], r[i].code);
  if (deadlock) s += " DEADLOCK[" + why + "]";
  if (stepcap) s += " NO-PROGRESS[" + why + "]";
  for (size_t i = 0; i < flags.size() && i < 4; i++) s += " {" + flags[i] + "}";
  return s;
}
struct FillGuard {
  ~FillGuard() {}
};
Exec Sim::run(const ExecOpts &o) {
  install_signals();
  Exec x;
  World w;
  W = &w;
  w.o = &o;
  w.x = &x;
  w.exec = nexec++;
  memset(w.cnt, 0, sizeof w.cnt);
  w.rng.reseed(mix(o.pseed, w.exec));
  if (plan.active)
    for (auto &d : plan.devs)
      if (d.exec == w.exec) w.plan[d.kind][d.idx] = d.val;
  w.now = o.start_ns;
  x.start_ns = w.now;
  x.r.resize(o.nrank);
  int set = w.exec & 1;
  lib_ensure(o.lib, (set + 1) * 8);
  mpi_begin();
  thr_begin();
  fs_begin();
  for (int i = 0; i < o.nrank; i++) {
    auto r = std::make_unique<RankCtx>();
    r->rank = i;
    r->res = &x.r[i];
    Image &im = images[o.lib][set * 8 + i];
    for (auto &s : im.segs) memcpy(s.first, s.second.data(), s.second.size());
    r->handle = im.h;
    r->main_ = (int (*)(int, char **))dlsym(im.h, "main");
    if (!r->main_) sim_fatal("no main in %s", o.lib.c_str());
    char *base = (char *)(0x200000000000ull + ((u64)w.exec * 16 + i) * ARENA * 2);
    r->arena = (char *)mmap(base, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r->arena != base) sim_fatal("arena mmap failed");
    r->ap = r->arena;
    r->aend = r->arena + ARENA;
    r->argstore.push_back("vpic");
    for (auto &a : o.args) r->argstore.push_back(a);
    for (auto &a : r->argstore) r->argv.push_back(&a[0]);
    r->argv.push_back(nullptr);
    w.ranks.push_back(std::move(r));
  }
  for (int i = 0; i < o.nrank; i++) {
    RankCtx *r = w.ranks[i].get();
    spawn(
        i,
        [r] {
          int c = r->main_((int)r->argstore.size(), r->argv.data());
          fs_flush_rank();
          rank_end(E_RETURNED, c);
        },
        8u << 20);
  }
  next_fiber = nullptr;
  while (!w.stop) {
    Fiber *f = next_fiber;
    next_fiber = nullptr;
    if (f && (!f->runnable || f->done)) f = nullptr;
    if (!f) f = choose_next(nullptr);
    if (!f) {
      bool alld = true;
      for (auto &p : w.fibers)
        if (!p->done) alld = false;
      if (alld) break;
      if (w.ev.empty()) {
        if (w.after_left < 0) x.deadlock = true;
        break;
      }
      w.now = std::max(w.now, w.ev.top().t);
      run_events();
      continue;
    }
    if (w.after_left >= 0 && w.after_left-- == 0) break;
    w.last = f;
    cur = f;
    errno = f->err;
    sim_swap(&w.sched_sp, f->sp);
    cur = nullptr;
  }
  if (x.deadlock || x.stepcap)
    for (auto &f : w.fibers)
      if (!f->done) {
        x.why += strf("%sr%d.t%d:%s", x.why.empty() ? "" : " ", f->rank, f->tid, f->runnable ? "running" : f->what);
        if (x.why.size() > 600) break;
      }
  for (auto &r : w.ranks) {
    if (x.r[r->rank].st == E_RETURNED || x.r[r->rank].st == E_EXITED || x.r[r->rank].st == E_RUNNING) check_arena(r.get());
    x.r[r->rank].nmalloc = r->nmalloc;
    x.r[r->rank].leak_blocks = r->live;
    x.rank_points.push_back(r->points);
    x.rank_mallocs.push_back(r->nmalloc);
  }
  mpi_end();
  thr_end();
  fs_end();
  for (auto &f : w.fibers) { stack_pool[f->stksz].push_back(f->stk); }
  for (auto &r : w.ranks) { // stale pointers into a dead process must trap, and its memory must not linger
    if (mmap(r->arena, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) sim_fatal("arena unmap");
  }
  x.end_ns = w.now;
  x.hash = w.hash;
  sim_ns += x.end_ns - x.start_ns;
  tot_points += x.points;
  tot_switch += x.switches;
  tot_preempt += x.preempts;
  tot_msgs += x.msgs;
  interleavings.insert(x.hash);
  evhash = mix(evhash, x.hash);
  for (auto &rr : x.r) {
    for (auto &rc : rr.recs) evhash = mix(evhash, hash_bytes(rc.data.data(), rc.data.size(), hash_bytes(rc.key.data(), rc.key.size())));
    evhash = mix(evhash, rr.st * 1000 + rr.code);
  }
  for (int k = 0; k < K_N; k++) (void)k;
  execlog.push_back(
      strf("exec %d %s n=%d pol[%s] points=%llu -> ", w.exec, o.lib.c_str(), o.nrank, o.pol.str().c_str(), (unsigned long long)x.points) +
      x.summary());
  if (getenv("SIM_LOG")) {
    fprintf(real_err, "%s\n", execlog.back().c_str());
    if (atoi(getenv("SIM_LOG")) > 1)
      for (size_t i = 0; i < x.r.size(); i++) fprintf(real_err, "--- rank %zu\n%s", i, x.r[i].log.c_str());
  }
  if (const char *sh = getenv("SIM_SHOW"))
    for (size_t i = 0; i < x.r.size(); i++)
      for (auto &q : x.r[i].recs)
        if (q.key.compare(0, strlen(sh), sh) == 0) {
          fprintf(real_err, "rank %zu %s:", i, q.key.c_str());
          const double *d = (const double *)q.data.data();
          for (size_t k = 0; k < q.data.size() / 8 && k < 24; k++) fprintf(real_err, " %.9g", d[k]);
          fprintf(real_err, "\n");
        }
  W = nullptr;
  return x;
}

// --------------------------------------------------------------- deck services
static const char *cfg(const char *k) {
  auto it = W->o->cfg.find(k);
  return it == W->o->cfg.end() ? nullptr : it->second.c_str();
}
extern "C" long long sim_geti(const char *k, long long d) {
  const char *s = cfg(k);
  return s ? atoll(s) : d;
}
extern "C" double sim_getd(const char *k, double d) {
  const char *s = cfg(k);
  return s ? atof(s) : d;
}
extern "C" void sim_rec(const char *k, const void *p, size_t n) {
  Fiber *c = cur;
  W->x->r[c->rank].recs.push_back(Rec{k, std::string((const char *)p, n)});
}
extern "C" void sim_note(const char *k, long long n) { sim->note(k, n); }
extern "C" void sim_yield(void) { point(1); }
extern "C" void sim_mark(int what) {
  Fiber *c = cur;
  W->x->marks.push_back({c->rank, what});
}
extern "C" int sim_phase(void) { return W->exec; }
