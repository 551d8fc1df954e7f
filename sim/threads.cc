// Simulated POSIX threads, OpenMP runtime and forced preemption.
#include "sim.hh"
#include <pthread.h>
#include <signal.h>
#include <cerrno>
#include <cmath>
#include <unordered_map>

void preempt_point();
struct Mtx {
  Fiber *owner = nullptr;
  std::deque<Fiber *> q;
  int depth = 0;
  bool destroyed = false, recursive = false;
};
struct Cnd {
  std::deque<Fiber *> q;
  bool destroyed = false;
};
struct Team {
  int n = 1;
  int arrived = 0;
  u64 gen = 0;
  std::vector<Fiber *> waiting;
  int left = 0;
  Fiber *master = nullptr;
  Team *parent = nullptr;
  int parent_tid = 0;
  long next = 0, end = 0, incr = 1, chunk = 1;
  u64 loopgen = 0;
  std::map<u64, int> single;
  std::unordered_map<Fiber *, u64> singleseq;
};
struct ThrState {
  std::map<void *, Mtx> m;
  std::map<void *, Cnd> c;
  std::map<std::pair<int, void *>, Mtx> crit;
};
static ThrState *T() { return W->thr; }
void thr_begin() { W->thr = new ThrState; }
void thr_end() {
  delete W->thr;
  W->thr = nullptr;
}
static Mtx &mtx(pthread_mutex_t *p) {
  Mtx &m = T()->m[p];
  if (m.destroyed) flag("use of a destroyed mutex");
  return m;
}
static Cnd &cnd(pthread_cond_t *p) {
  Cnd &c = T()->c[p];
  if (c.destroyed) flag("use of a destroyed condition variable");
  return c;
}
static void lock_m(Mtx &m) {
  if (m.owner == cur) {
    if (m.recursive) {
      m.depth++;
      return;
    }
    cur->runnable = false;
    while (true) block("mutex already held by this thread");
  }
  while (m.owner) {
    m.q.push_back(cur);
    block("mutex");
  }
  m.owner = cur;
  m.depth = 1;
}
static void unlock_m(Mtx &m) {
  if (m.owner != cur) {
    flag("unlock of a mutex not held by this thread");
    return;
  }
  if (--m.depth) return;
  m.owner = nullptr;
  if (!m.q.empty()) {
    Fiber *f = m.q.front();
    m.q.pop_front();
    wakeup(f);
  }
}
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *) {
  T()->m[p] = Mtx();
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *p) {
  Mtx &m = mtx(p);
  if (m.owner) {
    flag("destroying a locked mutex");
    return EBUSY;
  }
  m.destroyed = true;
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *p) {
  point(50);
  lock_m(mtx(p));
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *p) {
  poll_point(51);
  Mtx &m = mtx(p);
  if (m.owner) return EBUSY;
  m.owner = cur;
  m.depth = 1;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *p) {
  unlock_m(mtx(p));
  point(52);
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *p, const pthread_condattr_t *) {
  T()->c[p] = Cnd();
  return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *p) {
  Cnd &c = cnd(p);
  if (!c.q.empty()) {
    flag("destroying a condition variable with waiters");
    return EBUSY;
  }
  c.destroyed = true;
  return 0;
}
static void wake_from(Cnd *c, Fiber *f) {
  for (size_t i = 0; i < c->q.size(); i++)
    if (c->q[i] == f) {
      c->q.erase(c->q.begin() + i);
      wakeup(f);
      return;
    }
}
int __wrap_pthread_cond_wait(pthread_cond_t *p, pthread_mutex_t *mp) {
  point(53);
  Mtx &m = mtx(mp);
  Cnd &c = cnd(p);
  if (m.owner != cur) flag("pthread_cond_wait without holding the mutex");
  c.q.push_back(cur);
  unlock_m(m);
  i64 s = decide(K_SPUR, 0, [](Rng &g) -> i64 { return g.chance(W->o->pol.p_spur) ? 1 + (i64)g.below(3000) : 0; });
  if (s > 0) {
    Fiber *f = cur;
    Cnd *cp = &c;
    u64 my = ++f->spin;
    W->at(W->now + s, [f, cp, my] {
      if (f->spin == my && !f->done) {
        sim->note("fault.spurious");
        wake_from(cp, f);
      }
    });
  }
  block("condition variable");
  cur->spin++;
  lock_m(m);
  return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *p, pthread_mutex_t *mp, const struct timespec *ts) {
  point(53);
  Mtx &m = mtx(mp);
  Cnd &c = cnd(p);
  c.q.push_back(cur);
  unlock_m(m);
  bool to = false;
  Fiber *f = cur;
  Cnd *cp = &c;
  u64 my = ++f->spin;
  i64 t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  W->at(t > W->now ? t : W->now + 1, [f, cp, my, &to] {
    if (f->spin == my && !f->done) {
      to = true;
      wake_from(cp, f);
    }
  });
  block("condition variable (timed)");
  cur->spin++;
  lock_m(m);
  return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *p) {
  point(54);
  Cnd &c = cnd(p);
  if (c.q.empty()) return 0;
  i64 i = 0;
  if (c.q.size() > 1)
    i = decide(K_WAKE, 0, [&](Rng &g) -> i64 { return g.chance(W->o->pol.p_wake) ? (i64)g.below(c.q.size()) : 0; }) % (i64)c.q.size();
  Fiber *f = c.q[i];
  c.q.erase(c.q.begin() + i);
  wakeup(f);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *p) {
  point(55);
  Cnd &c = cnd(p);
  for (auto *f : c.q) wakeup(f);
  c.q.clear();
  return 0;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  point(56);
  int rank = cur->rank;
  RankCtx *r = RC();
  Fiber *f = spawn(rank, nullptr, 2u << 20);
  f->tid = ++r->nthread;
  f->entry = [f, fn, arg] {
    f->ret = fn(arg);
    if (f->joiner) {
      Fiber *j = f->joiner;
      f->joiner = nullptr;
      wakeup(j);
    }
  };
  *t = (pthread_t)f;
  sim->note("threads.created");
  point(57);
  return 0;
}
// some references stay weak and escape --wrap: the executable's definitions win for those
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (cur) return __wrap_pthread_create(t, a, fn, arg);
  sim_fatal("pthread_create outside a simulated process");
}
int pthread_sigmask(int, const sigset_t *, sigset_t *o) {
  if (o) memset(o, 0, sizeof *o);
  return 0;
}
int __wrap_pthread_sigmask(int a, const sigset_t *b, sigset_t *c) { return pthread_sigmask(a, b, c); }
int __wrap_pthread_join(pthread_t t, void **ret) {
  point(58);
  Fiber *f = (Fiber *)t;
  while (!f->done) {
    f->joiner = cur;
    block("pthread_join");
  }
  if (ret) *ret = f->ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t) { return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)cur; }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
void __wrap_pthread_exit(void *ret) {
  Fiber *f = cur;
  f->ret = ret;
  if (f->joiner) wakeup(f->joiner);
  f->done = true;
  f->runnable = false;
  block("exited");
  __builtin_trap();
}
int __wrap_sched_yield(void) {
  poll_point(59);
  return 0;
}
int __wrap_pthread_yield(void) {
  poll_point(59);
  return 0;
}
int __wrap_pthread_spin_init(pthread_spinlock_t *p, int) {
  T()->m[(void *)p] = Mtx();
  return 0;
}
int __wrap_pthread_spin_lock(pthread_spinlock_t *p) {
  point(50);
  lock_m(T()->m[(void *)p]);
  return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t *p) {
  unlock_m(T()->m[(void *)p]);
  point(52);
  return 0;
}
int __wrap_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
// the code's own spin delay (bound at load time through a dynamic list)
uint32_t _nanodelay(uint32_t n) {
  if (!cur) return 0;
  if (n >= 100000000u) {
    W->now += n;
    point(61);
    return n;
  }
  W->now += n;
  poll_point(60);
  return n;
}

// ------------------------------------------------------------------ OpenMP
int __wrap_omp_get_num_threads(void) { return cur && cur->team ? cur->team->n : 1; }
int __wrap_omp_get_thread_num(void) { return cur && cur->team ? cur->team_tid : 0; }
int __wrap_omp_get_max_threads(void) { return RC()->omp_nthreads; }
void __wrap_omp_set_num_threads(int n) { RC()->omp_nthreads = n < 1 ? 1 : n; }
int __wrap_omp_in_parallel(void) { return cur->team && cur->team->n > 1; }
int __wrap_omp_get_num_procs(void) { return 8; }
void __wrap_omp_set_dynamic(int) {}
int __wrap_omp_get_dynamic(void) { return 0; }
void __wrap_omp_set_nested(int) {}
double __wrap_omp_get_wtime(void) { return W->now * 1e-9; }
static void team_barrier(Team *t) {
  point(70);
  u64 g = t->gen;
  if (++t->arrived == t->n) {
    t->arrived = 0;
    t->gen++;
    for (auto *f : t->waiting) wakeup(f);
    t->waiting.clear();
  } else {
    t->waiting.push_back(cur);
    while (t->gen == g) block("omp barrier");
  }
}
static void run_team(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, long chunk) {
  Team *t = new Team;
  if (n == 0) n = RC()->omp_nthreads;
  if (n < 1) n = 1;
  t->n = (int)n;
  t->left = (int)n;
  t->parent = cur->team;
  t->parent_tid = cur->team_tid;
  t->master = cur;
  t->next = start;
  t->end = end;
  t->incr = incr;
  t->chunk = chunk > 0 ? chunk : 1;
  point(71);
  sim->note("threads.omp_regions");
  int rank = cur->rank;
  RankCtx *r = RC();
  for (unsigned i = 1; i < n; i++) {
    Fiber *f;
    bool fresh = r->idle.empty();
    if (fresh) {
      f = spawn(rank, nullptr, 2u << 20);
      f->tid = ++r->nthread;
      f->omp = true;
    } else {
      f = r->idle.front();
      r->idle.pop_front();
    }
    f->team = t;
    f->team_tid = (int)i;
    f->job = [t, fn, data] {
      fn(data);
      if (--t->left == 0) wakeup(t->master);
    };
    if (fresh)
      f->entry = [f, r] {
        for (;;) {
          f->job();
          f->team = nullptr;
          r->idle.push_back(f);
          block("idle omp worker");
        }
      };
    else wakeup(f);
  }
  cur->team = t;
  cur->team_tid = 0;
  fn(data);
  t->left--;
  while (t->left > 0) block("omp join");
  cur->team = t->parent;
  cur->team_tid = t->parent_tid;
  delete t;
  point(72);
}
void __wrap_GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, n, 0, 0, 1, 1); }
void __wrap_GOMP_barrier(void) {
  if (cur->team) team_barrier(cur->team);
  else point(70);
}
static Mtx &crit(void *k) { return T()->crit[{cur->rank, k}]; }
void __wrap_GOMP_critical_start(void) {
  point(73);
  lock_m(crit(nullptr));
}
void __wrap_GOMP_critical_end(void) {
  unlock_m(crit(nullptr));
  point(74);
}
void __wrap_GOMP_critical_name_start(void **p) {
  point(73);
  lock_m(crit(p));
}
void __wrap_GOMP_critical_name_end(void **p) {
  unlock_m(crit(p));
  point(74);
}
void __wrap_GOMP_atomic_start(void) { lock_m(crit((void *)1)); }
void __wrap_GOMP_atomic_end(void) { unlock_m(crit((void *)1)); }
bool __wrap_GOMP_single_start(void) {
  Team *t = cur->team;
  if (!t) return true;
  u64 s = t->singleseq[cur]++;
  point(75);
  return t->single[s]++ == 0;
}
static bool loop_next(long *a, long *b) {
  Team *t = cur->team;
  point(76);
  if ((t->incr > 0 && t->next >= t->end) || (t->incr < 0 && t->next <= t->end)) return false;
  *a = t->next;
  long e = t->next + t->chunk * t->incr;
  if ((t->incr > 0 && e > t->end) || (t->incr < 0 && e < t->end)) e = t->end;
  t->next = e;
  *b = e;
  return true;
}
static bool loop_start(long s, long e, long inc, long ch, long *a, long *b) {
  Team *t = cur->team;
  u64 q = t->singleseq[cur]++;
  if (t->single[q]++ == 0) {
    t->next = s;
    t->end = e;
    t->incr = inc;
    t->chunk = ch > 0 ? ch : 1;
  }
  return loop_next(a, b);
}
bool __wrap_GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool __wrap_GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool __wrap_GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool __wrap_GOMP_loop_dynamic_next(long *a, long *b) { return loop_next(a, b); }
bool __wrap_GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return loop_next(a, b); }
bool __wrap_GOMP_loop_guided_next(long *a, long *b) { return loop_next(a, b); }
void __wrap_GOMP_loop_end(void) { team_barrier(cur->team); }
void __wrap_GOMP_loop_end_nowait(void) {}
void __wrap_GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) {
  run_team(fn, d, n, s, e, i, c);
}
void __wrap_GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) {
  run_team(fn, d, n, s, e, i, c);
}
void __wrap_GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) {
  run_team(fn, d, n, s, e, i, c);
}

// ------------------------------------------- forced preemption (instrumented)
#define TICK()                                                                                                                                       \
  do {                                                                                                                                               \
    Fiber *f_ = cur;                                                                                                                                 \
    if (f_ && f_->quantum > 0 && --f_->quantum == 0) preempt_point();                                                                                \
  } while (0)
#define H(n)                                                                                                                                         \
  void n(void *) { TICK(); }
H(__tsan_read1)
H(__tsan_read2)
H(__tsan_read4)
H(__tsan_read8)
H(__tsan_read16)
H(__tsan_write1)
H(__tsan_write2)
H(__tsan_write4)
H(__tsan_write8)
H(__tsan_write16)
H(__tsan_unaligned_read2)
H(__tsan_unaligned_read4)
H(__tsan_unaligned_read8)
H(__tsan_unaligned_read16)
H(__tsan_unaligned_write2)
H(__tsan_unaligned_write4)
H(__tsan_unaligned_write8)
H(__tsan_unaligned_write16)
H(__tsan_volatile_read1)
H(__tsan_volatile_read2)
H(__tsan_volatile_read4)
H(__tsan_volatile_read8)
H(__tsan_volatile_write1)
H(__tsan_volatile_write2) H(__tsan_volatile_write4) H(__tsan_volatile_write8) H(__tsan_vptr_read) void __tsan_vptr_update(void **, void *) {
  TICK();
}
void __tsan_read_range(void *, unsigned long) { TICK(); }
void __tsan_write_range(void *, unsigned long) { TICK(); }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define AT(B, T)                                                                                                                                     \
  T __tsan_atomic##B##_load(const volatile T *p, int) {                                                                                              \
    TICK();                                                                                                                                          \
    return *p;                                                                                                                                       \
  }                                                                                                                                                  \
  void __tsan_atomic##B##_store(volatile T *p, T v, int) {                                                                                           \
    TICK();                                                                                                                                          \
    *p = v;                                                                                                                                          \
  }                                                                                                                                                  \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int) {                                                                                           \
    TICK();                                                                                                                                          \
    T o = *p;                                                                                                                                        \
    *p = v;                                                                                                                                          \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) {                                                                                          \
    TICK();                                                                                                                                          \
    T o = *p;                                                                                                                                        \
    *p = o + v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) {                                                                                          \
    TICK();                                                                                                                                          \
    T o = *p;                                                                                                                                        \
    *p = o - v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) {                                                                                          \
    TICK();                                                                                                                                          \
    T o = *p;                                                                                                                                        \
    *p = o & v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) {                                                                                           \
    TICK();                                                                                                                                          \
    T o = *p;                                                                                                                                        \
    *p = o | v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) {                                                                                          \
    TICK();                                                                                                                                          \
    T o = *p;                                                                                                                                        \
    *p = o ^ v;                                                                                                                                      \
    return o;                                                                                                                                        \
  }                                                                                                                                                  \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                                                               \
    TICK();                                                                                                                                          \
    if (*p == *e) {                                                                                                                                  \
      *p = v;                                                                                                                                        \
      return 1;                                                                                                                                      \
    }                                                                                                                                                \
    *e = *p;                                                                                                                                         \
    return 0;                                                                                                                                        \
  }                                                                                                                                                  \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) {                                                                 \
    TICK();                                                                                                                                          \
    if (*p == *e) {                                                                                                                                  \
      *p = v;                                                                                                                                        \
      return 1;                                                                                                                                      \
    }                                                                                                                                                \
    *e = *p;                                                                                                                                         \
    return 0;                                                                                                                                        \
  }                                                                                                                                                  \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                                                                     \
    TICK();                                                                                                                                          \
    T o = *p;                                                                                                                                        \
    if (o == e) *p = v;                                                                                                                              \
    return o;                                                                                                                                        \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
int __cxa_guard_acquire(uint64_t *);
void __cxa_guard_release(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (cur) cur->nopreempt++;
  int r = __cxa_guard_acquire(g);
  if (!r && cur) cur->nopreempt--;
  return r;
}
void __wrap___cxa_guard_release(uint64_t *g) {
  __cxa_guard_release(g);
  if (cur) cur->nopreempt--;
}
}
