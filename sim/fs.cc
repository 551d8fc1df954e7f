// Simulated file system, console, clock and process exit.
#include "sim.hh"
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <sys/time.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <algorithm>

struct SFile {
  std::shared_ptr<Inode> ino;
  std::string path;
  i64 pos = 0;
  bool rd = false, wr = false, app = false;
  int rank;
  u64 seq = 0;
};
struct FsState {
  std::vector<FsFault> faults;
  std::map<u64, std::pair<int, FILE *>> open;
  u64 seq = 0;
};
u64 FS::used() const {
  u64 n = 0;
  for (auto &f : files) n += f.second->data.size();
  return n;
}
u64 FS::hash() const {
  u64 h = 7;
  for (auto &f : files) h = mix(h, hash_bytes(f.second->data.data(), f.second->data.size(), hash_bytes(f.first.data(), f.first.size())));
  return h;
}
static std::string norm(const char *p) {
  std::string s = p, o;
  if (s.compare(0, 4, "/sim") == 0) s = s.substr(4);
  std::vector<std::string> v;
  std::string c;
  for (char ch : s + "/") {
    if (ch == '/') {
      if (c == "..") {
        if (!v.empty()) v.pop_back();
      } else if (!c.empty() && c != ".") v.push_back(c);
      c.clear();
    } else c += ch;
  }
  for (auto &e : v) o += (o.empty() ? "" : "/") + e;
  return o;
}
static FILE *out_console, *err_console;
static ssize_t con_write(void *, const char *b, size_t n) {
  if (!cur || !W) return (ssize_t)n;
  auto &l = W->x->r[cur->rank].log;
  if (l.size() < 400000) l.append(b, n);
  return (ssize_t)n;
}
static FILE *old_out, *old_err;
static void console() {
  if (out_console) return;
  cookie_io_functions_t f = {nullptr, con_write, nullptr, nullptr};
  out_console = fopencookie(nullptr, "w", f);
  err_console = fopencookie(nullptr, "w", f);
  setvbuf(out_console, nullptr, _IONBF, 0);
  setvbuf(err_console, nullptr, _IONBF, 0);
}
void fs_begin() {
  console();
  old_out = stdout;
  old_err = stderr;
  stdout = out_console;
  stderr = err_console;
  W->fss = new FsState;
  W->fss->faults = W->o->fsf;
  W->x->rank_fsops.assign(W->o->nrank, 0);
}
void fs_end() {
  stdout = old_out;
  stderr = old_err;
  delete W->fss;
  W->fss = nullptr;
}
static FsFault *fault(char k, const std::string &path, u64 n) {
  W->x->rank_fsops[cur->rank]++;
  W->x->r[cur->rank].nfs++;
  if (W->x->fsops.size() < 200000) W->x->fsops.push_back(FsOp{cur->rank, k, path, n});
  W->log(900 + k, hash_bytes(path.data(), path.size(), n));
  for (auto &f : W->fss->faults) {
    if (f.kind != k || (f.rank >= 0 && f.rank != cur->rank) || (!f.path.empty() && path.find(f.path) == std::string::npos)) continue;
    i64 s = f.seen++;
    if (s == f.nth || (f.sticky && s > f.nth)) {
      if (!f.fired || true) {
        W->x->faults_fired++;
        sim->note(strf("fault.fs.%c", k));
      }
      f.fired = true;
      return &f;
    }
  }
  return nullptr;
}
static bool room(size_t n) { return sim->fs.capacity < 0 || sim->fs.used() + n <= (u64)sim->fs.capacity; }
static ssize_t f_read(void *c, char *b, size_t n) {
  SFile *f = (SFile *)c;
  point(80);
  if (!f->rd) {
    errno = EBADF;
    return -1;
  }
  if (FsFault *x = fault('r', f->path, n)) {
    errno = x->err;
    return -1;
  }
  auto &d = f->ino->data;
  if (f->pos >= (i64)d.size()) return 0;
  size_t k = std::min(n, d.size() - (size_t)f->pos);
  if (k > 1) {
    i64 s = decide(K_SHORT, 0, [&](Rng &g) -> i64 { return g.chance(W->o->pol.p_short) ? 1 + (i64)g.below(k - 1) : 0; });
    if (s > 0) {
      k = std::min<size_t>(k, s);
      sim->note("fault.shortread");
    }
  }
  memcpy(b, d.data() + f->pos, k);
  f->pos += k;
  return (ssize_t)k;
}
static ssize_t put(SFile *f, const char *b, size_t n) {
  auto &d = f->ino->data;
  if (f->app) f->pos = d.size();
  if (f->pos + n > d.size()) d.resize(f->pos + n, 0);
  memcpy(&d[f->pos], b, n);
  f->pos += n;
  return (ssize_t)n;
}
static ssize_t f_write(void *c, const char *b, size_t n) {
  SFile *f = (SFile *)c;
  size_t done = 0;
  while (done < n) {
    point(81);
    if (!f->wr) {
      errno = EBADF;
      return done ? (ssize_t)done : 0;
    }
    if (FsFault *x = fault('w', f->path, n)) {
      size_t k = std::min<size_t>(n - done, x->partial);
      if (k) put(f, b + done, k);
      errno = x->err;
      return 0;
    }
    size_t k = n - done;
    if (k > 1) {
      i64 s = decide(K_SHORT, 0, [&](Rng &g) -> i64 { return g.chance(W->o->pol.p_short) ? 1 + (i64)g.below(k - 1) : 0; });
      if (s > 0) {
        k = std::min<size_t>(k, s);
        sim->note("fault.shortwrite");
      }
    }
    if (!room(k)) {
      u64 u = sim->fs.used();
      size_t a = (u64)sim->fs.capacity > u ? sim->fs.capacity - u : 0;
      if (a) put(f, b + done, std::min(a, k));
      W->x->faults_fired++;
      sim->note("fault.fs.enospc");
      errno = ENOSPC;
      return 0;
    }
    put(f, b + done, k);
    done += k;
  }
  return (ssize_t)n;
}
static int f_seek(void *c, off64_t *off, int wh) {
  SFile *f = (SFile *)c;
  i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : (i64)f->ino->data.size();
  if (base + *off < 0) {
    errno = EINVAL;
    return -1;
  }
  f->pos = base + *off;
  *off = f->pos;
  return 0;
}
static int f_close(void *c) {
  SFile *f = (SFile *)c;
  point(82);
  FsFault *x = fault('c', f->path, 0);
  int e = x ? x->err : 0;
  W->fss->open.erase(f->seq);
  delete f;
  if (e) {
    errno = e;
    return -1;
  }
  return 0;
}
void fs_flush_rank() {
  std::vector<FILE *> v;
  for (auto &o : W->fss->open)
    if (o.second.first == cur->rank) v.push_back(o.second.second);
  for (auto *h : v) {
    sim->note("probe.open_at_exit");
    fflush(h);
  }
}
static i64 clk(int rank) {
  i64 base = W->now - W->o->start_ns, t = W->o->start_ns + base;
  if (rank < (int)W->o->clocks.size()) {
    auto &c = W->o->clocks[rank];
    t = W->o->start_ns + (i64)(base * c.rate) + c.offset_ns;
    for (auto &j : c.jumps)
      if (base >= j.first) t += j.second;
  }
  return t;
}
double sim_wtime() {
  point(95);
  return clk(cur->rank) * 1e-9;
}
extern "C" {
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!cur) return fopen(path, mode);
  point(83);
  std::string p = norm(path);
  if (FsFault *x = fault('o', p, 0)) {
    errno = x->err;
    return nullptr;
  }
  auto it = sim->fs.files.find(p);
  bool plus = strchr(mode, '+');
  SFile t;
  t.path = p;
  t.rank = cur->rank;
  switch (mode[0]) {
  case 'r':
    if (it == sim->fs.files.end()) {
      errno = ENOENT;
      return nullptr;
    }
    t.rd = true;
    t.wr = plus;
    break;
  case 'w':
    t.wr = true;
    t.rd = plus;
    break;
  case 'a':
    t.wr = t.app = true;
    t.rd = plus;
    break;
  default:
    errno = EINVAL;
    return nullptr;
  }
  if (it != sim->fs.files.end() && it->second->dir) {
    errno = EISDIR;
    return nullptr;
  }
  size_t sl = p.rfind('/');
  if (sl != std::string::npos) {
    auto d = sim->fs.files.find(p.substr(0, sl));
    if (d == sim->fs.files.end() || !d->second->dir) {
      errno = ENOENT;
      return nullptr;
    }
  }
  if (it == sim->fs.files.end()) {
    it = sim->fs.files.emplace(p, std::make_shared<Inode>()).first;
  } else if (mode[0] == 'w') {
    it->second->data.clear();
  }
  t.ino = it->second;
  SFile *f = new SFile(t);
  cookie_io_functions_t io = {f_read, f_write, f_seek, f_close};
  std::string m;
  m += mode[0];
  if (plus) m += '+';
  FILE *h = fopencookie(f, m.c_str(), io);
  f->seq = ++W->fss->seq;
  W->fss->open[f->seq] = {cur->rank, h};
  return h;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_mkdir(const char *path, mode_t) {
  point(84);
  std::string p = norm(path);
  if (FsFault *x = fault('m', p, 0)) {
    errno = x->err;
    return -1;
  }
  if (sim->fs.files.count(p)) {
    errno = EEXIST;
    return -1;
  }
  size_t sl = p.rfind('/');
  if (sl != std::string::npos) {
    auto d = sim->fs.files.find(p.substr(0, sl));
    if (d == sim->fs.files.end() || !d->second->dir) {
      errno = ENOENT;
      return -1;
    }
  }
  auto n = std::make_shared<Inode>();
  n->dir = true;
  sim->fs.files[p] = n;
  return 0;
}
char *__wrap_getcwd(char *b, size_t n) {
  point(85);
  if (!b || n < 5) {
    errno = ERANGE;
    return nullptr;
  }
  strcpy(b, "/sim");
  return b;
}
int __wrap_rename(const char *a, const char *b) {
  point(86);
  std::string p = norm(a), q = norm(b);
  if (FsFault *x = fault('n', p, 0)) {
    errno = x->err;
    return -1;
  }
  auto it = sim->fs.files.find(p);
  if (it == sim->fs.files.end()) {
    errno = ENOENT;
    return -1;
  }
  auto n = it->second;
  sim->fs.files.erase(it);
  sim->fs.files[q] = n;
  return 0;
}
int __wrap_remove(const char *a) {
  point(87);
  std::string p = norm(a);
  if (!sim->fs.files.erase(p)) {
    errno = ENOENT;
    return -1;
  }
  return 0;
}
int __wrap_unlink(const char *a) { return __wrap_remove(a); }
int __wrap_access(const char *a, int) {
  std::string p = norm(a);
  if (!sim->fs.files.count(p)) {
    errno = ENOENT;
    return -1;
  }
  return 0;
}
int __wrap_stat(const char *a, struct stat *st) {
  std::string p = norm(a);
  auto it = sim->fs.files.find(p);
  if (it == sim->fs.files.end()) {
    errno = ENOENT;
    return -1;
  }
  memset(st, 0, sizeof *st);
  st->st_size = it->second->data.size();
  st->st_mode = it->second->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  return 0;
}
int __wrap_system(const char *) {
  flag("system() called");
  return -1;
}

int __wrap_gettimeofday(struct timeval *tv, void *) {
  point(90);
  i64 t = clk(cur->rank);
  tv->tv_sec = t / 1000000000;
  tv->tv_usec = t % 1000000000 / 1000;
  return 0;
}
int __wrap_clock_gettime(clockid_t, struct timespec *ts) {
  point(90);
  i64 t = clk(cur->rank);
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
time_t __wrap_time(time_t *o) {
  point(90);
  time_t t = clk(cur->rank) / 1000000000;
  if (o) *o = t;
  return t;
}
int __wrap_usleep(useconds_t u) {
  Fiber *f = cur;
  W->at(W->now + (i64)u * 1000, [f] { wakeup(f); });
  block("usleep");
  return 0;
}
unsigned __wrap_sleep(unsigned s) {
  Fiber *f = cur;
  W->at(W->now + (i64)s * 1000000000, [f] { wakeup(f); });
  block("sleep");
  return 0;
}
int __wrap_nanosleep(const struct timespec *ts, struct timespec *) {
  Fiber *f = cur;
  W->at(W->now + ts->tv_sec * 1000000000ll + ts->tv_nsec + 1, [f] { wakeup(f); });
  block("nanosleep");
  return 0;
}
void __wrap_exit(int c) {
  fs_flush_rank();
  rank_end(E_EXITED, c);
}
void __wrap__exit(int c) { rank_end(E_EXITED, c); }
void __wrap_abort(void) { rank_end(E_ABORTED, 134); }
void __wrap___assert_fail(const char *a, const char *, unsigned, const char *) {
  flag(std::string("assertion failed: ") + a);
  rank_end(E_ABORTED, 134);
}
// Symbol lookups of the checkpoint service: every rank resolves against its own image.
void *__wrap_dlsym(void *h, const char *n) {
  (void)h;
  return dlsym(RC()->handle, n);
}
}
