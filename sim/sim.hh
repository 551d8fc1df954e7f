// Deterministic simulator for vpic: core declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <unordered_map>
#include <functional>
#include <memory>
#include <queue>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

struct Rng { // xoshiro256**
  u64 s[4];
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 sm(u64 &x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(u64 seed) {
    u64 x = seed;
    for (int i = 0; i < 4; i++) s[i] = sm(x);
  }
  static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
  u64 next() {
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9e3779b97f4a7c15ull + b;
  return Rng::sm(x);
}
inline u64 hash_bytes(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull) {
  const u8 *b = (const u8 *)p;
  while (n >= 8) {
    u64 w;
    memcpy(&w, b, 8);
    h = (h ^ w) * 0x100000001b3ull;
    h ^= h >> 29;
    b += 8;
    n -= 8;
  }
  while (n--) { h = (h ^ *b++) * 0x100000001b3ull; }
  return h ^ (h >> 32);
}
std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- decisions
enum Kind { K_SW, K_NX, K_LAT, K_CLAT, K_EAGER, K_RDT, K_PQ, K_SPUR, K_STALL, K_WAKE, K_SHORT, K_AFTER, K_ACK, K_N };
extern const char *kind_name[K_N];
struct Dev {
  int exec;
  int kind;
  u64 idx;
  i64 val;
};

// scheduling/fault policy for one execution (all zero: the canonical schedule)
struct Policy {
  bool random = false;    // otherwise every decision takes its default
  double p_switch = 0;    // forced switch at a synchronisation point
  double p_next = 0;      // random instead of round-robin successor when blocked
  double p_lat = 0;       // message gets a non-default latency
  double lat_scale = 1e3; // ns
  double p_clat = 0;      // collective leave delay
  double p_eager = 0;     // blocking send takes the rendezvous path
  double p_rdt = 0;       // transport reads the send buffer at post time
  double p_ack = 0;       // synchronous send completion is late
  double p_spur = 0;      // spurious condition wakeup
  double p_wake = 0;      // signal wakes another waiter than the first
  double p_stall = 0;     // fiber stalled for a while
  double stall_scale = 1e4;
  double p_short = 0;         // short read/write
  int after = 0;              // other ranks survive a peer's death for up to this many turns
  double quantum = 0;         // mean instrumented accesses between forced preemptions
  std::vector<double> weight; // per rank scheduling weight
  std::string str() const;
};
Policy random_policy(Rng &r, int nrank, bool preempt);

struct ClockModel {
  i64 offset_ns = 0;
  double rate = 1;
  std::vector<std::pair<i64, i64>> jumps;
};

// --------------------------------------------------------------- simulated FS
struct Inode {
  std::string data;
  int links = 1;
  bool dir = false;
};
struct FsOp {
  int rank;
  char kind;
  std::string path;
  u64 n;
}; // o w r c m
struct FsFault {       // fires on the nth matching call (counted per execution)
  char kind = 0;       // 'o' open, 'w' write, 'r' read, 'c' close, 'm' mkdir
  int rank = -1;       // -1 any
  std::string path;    // substring, empty any
  i64 nth = 0;         // fire on this matching call (0-based)
  bool sticky = false; // and on all following
  int err = 5;         // errno
  i64 partial = 0;     // bytes let through before failing
  bool fired = false;
  i64 seen = 0;
};
struct FS {
  std::map<std::string, std::shared_ptr<Inode>> files;
  i64 capacity = -1; // bytes; -1 unlimited
  u64 used() const;
  bool has(const std::string &p) const { return files.count(p) != 0; }
  std::string &data(const std::string &p) { return files[p]->data; }
  u64 hash() const;
};

// ------------------------------------------------------------------ execution
enum EndState { E_RUNNING = 0, E_RETURNED, E_EXITED, E_ABORTED, E_CRASHED, E_KILLED };
struct Rec {
  std::string key;
  std::string data;
};
struct RankResult {
  EndState st = E_RUNNING;
  int code = 0;
  std::string log;
  std::vector<Rec> recs;
  int finalized = 0;
  u64 nmalloc = 0;
  u64 nfs = 0;
  i64 leak_blocks = 0;
};
struct ExecOpts {
  std::string lib; // variant
  int nrank = 1;
  std::vector<std::string> args;          // after argv[0]
  std::map<std::string, std::string> cfg; // workload configuration
  Policy pol;
  u64 pseed = 1;   // scheduling seed
  u64 fill = 0x5a; // dirty memory pattern
  std::vector<ClockModel> clocks;
  i64 start_ns = 1000000000ll * 1000;
  std::vector<FsFault> fsf;
  int kill_rank = -1; // crash: rank killed when its point counter reaches kill_at
  i64 kill_at = -1;   // counts sim points of that rank (fs ops + mpi ops + steps)
  bool kill_all = true;
  int oom_rank = -1;
  i64 oom_at = -1; // oom_at-th allocation of that rank fails
  bool oom_sticky = true;
  i64 max_points = 40000000; // livelock bound
  i64 max_ns = 0;            // simulated time bound (0 none)
};
struct Exec {
  std::vector<RankResult> r;
  bool deadlock = false, stepcap = false;
  std::string why;                // who was waiting on what
  std::vector<std::string> flags; // misuse detected by the simulated transport/threads/memory
  i64 end_ns = 0, start_ns = 0;
  u64 points = 0, switches = 0, preempts = 0, msgs = 0, colls = 0, hash = 0, maxinflight = 0;
  std::vector<u64> rank_points, rank_fsops, rank_mallocs;
  std::vector<FsOp> fsops;
  std::vector<std::pair<int, int>> marks; // (rank, what) in the order they happened
  int faults_fired = 0;
  bool ok() const {
    if (deadlock || stepcap || !flags.empty()) return false;
    for (auto &x : r)
      if (!((x.st == E_RETURNED || x.st == E_EXITED) && x.code == 0)) return false;
    return true;
  }
  bool failed() const { return !ok(); }
  std::string summary() const;
  const std::string *rec(int rank, const std::string &key) const {
    for (auto &x : r[rank].recs)
      if (x.key == key) return &x.data;
    return nullptr;
  }
};

struct ReplayPlan {
  bool active = false;
  std::vector<Dev> devs;
};

struct Sim {
  FS fs;
  int nexec = 0;
  ReplayPlan plan;                  // if active: decisions come from here, else from policies
  std::vector<Dev> recorded;        // deviations from the default taken so far
  std::map<std::string, u64> notes; // coverage probes and fault counters
  std::set<u64> interleavings;
  u64 sim_ns = 0;
  u64 tot_points = 0, tot_switch = 0, tot_preempt = 0, tot_msgs = 0;
  u64 evhash = 0;
  std::vector<std::string> execlog;
  Exec run(const ExecOpts &o);
  void note(const std::string &k, u64 n = 1) { notes[k] += n; }
};
extern Sim *sim;

// loader
void lib_preload(const std::string &lib, const std::string &path, int ncopies);
void lib_ensure(const std::string &lib, int ncopies);
void set_lib_dir(const std::string &dir, const std::string &scratch);

// --------------------------------------------------------------------- fibers
struct Fiber;
struct RankCtx;
extern Fiber *cur;
[[noreturn]] void sim_fatal(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Fiber {
  int id = 0, rank = 0, tid = 0; // tid 0: rank host
  void *sp = nullptr;
  char *stk = nullptr;
  size_t stksz = 0;
  bool runnable = true, done = false;
  i64 wake = -1;         // timed block / stall
  const char *what = ""; // what it blocks on
  std::string what2;
  std::function<void()> entry;
  int err = 0;
  void *ret = nullptr;
  Fiber *joiner = nullptr;
  i64 quantum = -1; // accesses until forced preemption
  int nopreempt = 0;
  std::vector<char *> args;
  // OpenMP
  struct Team *team = nullptr;
  int team_tid = 0;
  u64 spin = 0;
  bool omp = false;
  std::function<void()> job;
};
struct Event {
  i64 t;
  u64 seq;
  std::function<void()> fn;
};
struct EvCmp {
  bool operator()(const Event &a, const Event &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; }
};

struct MpiState;
struct ThrState;
struct FsState;
struct RankCtx {
  int rank;
  void *handle = nullptr;
  int (*main_)(int, char **) = nullptr;
  char *arena = nullptr, *ap = nullptr, *aend = nullptr;
  u64 nmalloc = 0;
  i64 live = 0;
  RankResult *res = nullptr;
  i64 points = 0;
  std::map<Fiber *, int> threads;
  int nthread = 0;
  int omp_nthreads = 1;
  std::deque<Fiber *> idle;
  std::deque<std::string> argstore;
  std::vector<char *> argv;
  bool dead = false;
  std::vector<std::pair<char *, char *>> segs;
};
struct World {
  const ExecOpts *o = nullptr;
  Exec *x = nullptr;
  int exec = 0;
  std::vector<std::unique_ptr<Fiber>> fibers;
  std::vector<std::unique_ptr<RankCtx>> ranks;
  std::priority_queue<Event, std::vector<Event>, EvCmp> ev;
  u64 evseq = 0;
  i64 now = 0;
  Rng rng;
  u64 cnt[K_N];
  void *sched_sp = nullptr;
  Fiber *last = nullptr;
  std::unordered_map<u64, i64> plan[K_N];
  bool stop = false;
  i64 after_left = -1;
  MpiState *mpi = nullptr;
  ThrState *thr = nullptr;
  FsState *fss = nullptr;
  u64 hash = 0x1234;
  void at(i64 t, std::function<void()> f) { ev.push(Event{t, evseq++, std::move(f)}); }
  void log(u64 a, u64 b) { hash = mix(hash ^ a, b); }
};
extern World *W;

bool decide_planned(Kind k, u64 idx, i64 &v); // true: replaying
void decide_note(Kind k, u64 idx, i64 v);
template <class F> inline i64 decide(Kind k, i64 dflt, F gen) {
  u64 idx = W->cnt[k]++;
  i64 v = dflt;
  if (!decide_planned(k, idx, v) && W->o->pol.random) v = gen(W->rng);
  if (v != dflt) decide_note(k, idx, v);
  return v;
}
inline RankCtx *RC() { return W->ranks[((Fiber *)cur)->rank].get(); }
void point(int code);         // synchronisation point: may switch, advances the clock
void poll_point(int code);    // polling: hands the processor on by default
void block(const char *what); // until somebody calls wakeup()
void wakeup(Fiber *f);
Fiber *spawn(int rank, std::function<void()> fn, size_t stk);
void flag(const std::string &s); // record misuse
[[noreturn]] void rank_end(EndState st, int code);
void mpi_begin();
void mpi_end();
void mpi_rank_dead(int rank);
void thr_begin();
void thr_end();
void fs_begin();
void fs_end();
void fs_flush_rank(); // exit() flushes what is still open
bool in_sim();
