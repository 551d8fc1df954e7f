// Batch and replay driver.
#include "props.hh"
#include <algorithm>
#include <regex>
#include <cstdlib>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
static double wall() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '\n') o += "\\n";
    else if (c == '\r' || c == '\t') o += ' ';
    else o += c;
  }
  return o;
}
struct Opts {
  std::string prop, lib, dir = ".", scratch = "/tmp", replay;
  std::map<std::string, std::string> over;
  u64 seed = 1;
  bool plan = false;
  std::vector<Dev> devs;
  int worker = 0, nworker = 1;
  double secs = 10;
  u64 maxruns = 1u << 30;
  std::string out;
  bool emitdevs = false;
  std::vector<std::regex> known;
  int tier = 0;
  u64 start = 0;
};
static Prop *find(const std::string &id) {
  for (auto &p : props)
    if (id == p.id) return &p;
  return nullptr;
}
// executed in the forked child: result is written as text lines to fd
static void child(const Opts &o, Prop *p, const std::string &lib, u64 seed, int fd) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 60;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  Sim s;
  sim = &s;
  s.plan.active = o.plan;
  s.plan.devs = o.devs;
  Ctx c;
  c.prop = p->id;
  c.lib = lib;
  c.seed = seed;
  c.over = o.over;
  c.tier = o.tier;
  std::string st = "ok", msg;
  try {
    p->fn(c);
  } catch (Violation &v) {
    st = "violation";
    msg = v.msg;
  } catch (Discard &d) {
    st = "discard";
    msg = d.why;
  }
  std::string b = "status " + st + "\nmsg " + esc(msg) + "\n";
  b += strf("num %llu %llu %llu %llu %llu %llu %d\n", (unsigned long long)s.sim_ns, (unsigned long long)s.tot_points,
            (unsigned long long)s.tot_switch, (unsigned long long)s.tot_preempt, (unsigned long long)s.tot_msgs,
            (unsigned long long)mix(s.evhash, hash_bytes(msg.data(), msg.size())), s.nexec);
  for (auto h : c.nontriv) b += strf("nt %016llx\n", (unsigned long long)h);
  for (auto h : s.interleavings) b += strf("il %016llx\n", (unsigned long long)h);
  for (auto &n : s.notes) b += strf("note %s %llu\n", n.first.c_str(), (unsigned long long)n.second);
  for (auto &d : c.draws) {
    b += "draw " + d.name + " " + d.val;
    for (auto &x : d.simpler) b += " " + x;
    b += "\n";
  }
  for (auto &x : s.execlog) b += "exec " + esc(x) + "\n";
  if (o.emitdevs)
    for (auto &d : s.recorded) b += strf("dev %d %d %llu %lld\n", d.exec, d.kind, (unsigned long long)d.idx, (long long)d.val);
  for (size_t i = 0; i < b.size();) {
    ssize_t r = write(fd, b.data() + i, b.size() - i);
    if (r <= 0) _exit(73);
    i += r;
  }
  _exit(0);
}
struct Res {
  std::string status = "died", msg;
  std::vector<u64> num;
  std::vector<std::string> nt, il, lines;
  std::map<std::string, u64> notes;
  std::vector<std::string> draws, devs, execs;
};
static Res run1(const Opts &o, Prop *p, const std::string &lib, u64 seed, double timeout) {
  int pf[2];
  if (pipe(pf)) sim_fatal("pipe");
  int ef[2];
  if (pipe(ef)) sim_fatal("pipe");
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) sim_fatal("fork: %s", strerror(errno));
  if (!pid) {
    close(pf[0]);
    close(ef[0]);
    if (!getenv("SIM_LOG")) dup2(ef[1], 2);
    if (chdir(o.scratch.c_str())) _exit(74);
    child(o, p, lib, seed, pf[1]);
  }
  close(pf[1]);
  close(ef[1]);
  std::string buf, err;
  double t0 = wall();
  bool to = false;
  char tmp[65536];
  bool o1 = true, o2 = true;
  while (o1 || o2) {
    struct pollfd q[2] = {{o1 ? pf[0] : -1, POLLIN, 0}, {o2 ? ef[0] : -1, POLLIN, 0}};
    int n = poll(q, 2, 1000);
    if (wall() - t0 > timeout) {
      to = true;
      kill(pid, SIGKILL);
      break;
    }
    if (n <= 0) continue;
    if (o1 && q[0].revents) {
      ssize_t r = read(pf[0], tmp, sizeof tmp);
      if (r <= 0) o1 = false;
      else buf.append(tmp, r);
    }
    if (o2 && q[1].revents) {
      ssize_t r = read(ef[0], tmp, sizeof tmp);
      if (r <= 0) o2 = false;
      else err.append(tmp, r);
    }
  }
  close(pf[0]);
  close(ef[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Res R;
  size_t i = 0;
  while (i < buf.size()) {
    size_t e = buf.find('\n', i);
    if (e == std::string::npos) e = buf.size();
    std::string l = buf.substr(i, e - i);
    i = e + 1;
    size_t sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (k == "status") R.status = v;
    else if (k == "msg") R.msg = v;
    else if (k == "num") {
      char *q = &v[0];
      for (int j = 0; j < 7; j++) R.num.push_back(strtoull(q, &q, 10));
    } else if (k == "nt") R.nt.push_back(v);
    else if (k == "il") R.il.push_back(v);
    else if (k == "note") {
      size_t s2 = v.rfind(' ');
      R.notes[v.substr(0, s2)] = strtoull(v.c_str() + s2, nullptr, 10);
    } else if (k == "draw") R.draws.push_back(v);
    else if (k == "dev") R.devs.push_back(v);
    else if (k == "exec") R.execs.push_back(v);
  }
  if (to) {
    R.status = "violation";
    R.msg = "the run made no progress (wall-clock watchdog)";
    R.num.assign(7, 0);
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 72) {
    R.status = "violation";
    R.msg = "the run made no progress: a process computes for ever without reaching a communication, I/O or synchronisation point";
    R.num.assign(7, 0);
  } else if (!WIFEXITED(st) || WEXITSTATUS(st)) {
    R.status = "died";
    R.msg = strf("simulator died: status %x: ", st) + esc(err.substr(0, 600));
    R.num.assign(7, 0);
  }
  if (R.num.size() < 7) R.num.resize(7);
  return R;
}
static void emit(const Res &r, const std::string &lib, u64 seed) {
  printf("BEGIN\nlib %s\nseed %llu\nstatus %s\nmsg %s\nhash %llu\n", lib.c_str(), (unsigned long long)seed, r.status.c_str(), r.msg.c_str(),
         (unsigned long long)r.num[5]);
  for (auto &d : r.draws) printf("draw %s\n", d.c_str());
  for (auto &d : r.execs) printf("exec %s\n", d.c_str());
  for (auto &d : r.devs) printf("dev %s\n", d.c_str());
  for (auto &d : r.notes) printf("note %s %llu\n", d.first.c_str(), (unsigned long long)d.second);
  printf("END\n");
  fflush(stdout);
}
static std::string absolute(const std::string &p) {
  char b[4096];
  return realpath(p.c_str(), b) ? std::string(b) : p;
}
int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  Opts o;
  std::string mode = argc > 1 ? argv[1] : "";
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") o.prop = nx();
    else if (a == "--lib") o.lib = nx();
    else if (a == "--dir") o.dir = absolute(nx());
    else if (a == "--scratch") o.scratch = absolute(nx());
    else if (a == "--seed") o.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--worker") o.worker = atoi(nx().c_str());
    else if (a == "--nworker") o.nworker = atoi(nx().c_str());
    else if (a == "--secs") o.secs = atof(nx().c_str());
    else if (a == "--max") o.maxruns = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--start") o.start = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--set") {
      std::string kv = nx();
      size_t e = kv.find('=');
      o.over[kv.substr(0, e)] = kv.substr(e + 1);
    } else if (a == "--known") o.known.push_back(std::regex(nx(), std::regex::extended));
    else if (a == "--devs") o.emitdevs = true;
    else if (a == "--out") o.out = nx();
    else if (a == "--tier") o.tier = atoi(nx().c_str());
    else if (a == "--replay") o.replay = absolute(nx());
    else sim_fatal("unknown option %s", a.c_str());
  }
  if (mode == "list") {
    for (auto &p : props) {
      printf("%s", p.id);
      for (auto &l : p.libs) printf(" %s", l.c_str());
      printf(" | %s\n", p.rule);
    }
    return 0;
  }
  if (!o.replay.empty()) {
    FILE *f = fopen(o.replay.c_str(), "r");
    if (!f) sim_fatal("cannot open %s", o.replay.c_str());
    char *line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
      std::string l(line, n);
      while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      size_t sp = l.find(' ');
      std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
      if (k == "prop") o.prop = v;
      else if (k == "lib") o.lib = v;
      else if (k == "seed") o.seed = strtoull(v.c_str(), nullptr, 10);
      else if (k == "tier") o.tier = atoi(v.c_str());
      else if (k == "set") {
        size_t s2 = v.find(' ');
        o.over[v.substr(0, s2)] = v.substr(s2 + 1);
      } else if (k == "plan") o.plan = v == "1";
      else if (k == "dev") {
        Dev d;
        long long val;
        unsigned long long idx;
        char kn[32];
        if (sscanf(v.c_str(), "%d %31s %llu %lld", &d.exec, kn, &idx, &val) == 4) {
          d.idx = idx;
          d.val = val;
          d.kind = -1;
          for (int q = 0; q < K_N; q++)
            if (!strcmp(kn, kind_name[q])) d.kind = q;
          if (d.kind < 0) d.kind = atoi(kn);
          o.devs.push_back(d);
        }
      }
    }
    fclose(f);
  }
  Prop *p = find(o.prop);
  if (!p) sim_fatal("unknown property %s", o.prop.c_str());
  set_lib_dir(o.dir, o.scratch);
  if (mode == "one") {
    if (o.lib.empty()) o.lib = p->libs[o.seed % p->libs.size()];
    lib_ensure(o.lib, 16);
    Res r = run1(o, p, o.lib, o.seed, 300);
    emit(r, o.lib, o.seed);
    return r.status == "violation" ? 1 : r.status == "died" ? 2 : 0;
  }
  if (mode != "batch") sim_fatal("usage: vpicsim list|one|batch ...");
  for (auto &l : p->libs) lib_ensure(l, 16);
  double t0 = wall();
  u64 runs = 0, ok = 0, disc = 0, known = 0, viol = 0, died = 0, execs = 0;
  std::vector<u64> tot(7);
  std::map<std::string, u64> notes, discwhy;
  std::set<std::string> nt, il;
  std::map<std::string, u64> perlib;
  u64 dig = 0;
  double slow = 0;
  for (u64 k = 0; runs < o.maxruns; k++) {
    if (wall() - t0 > o.secs) break;
    u64 n = o.start + o.worker + k * o.nworker;
    u64 seed = mix(o.seed * 0x10001, n) >> 16;
    std::string lib = o.lib.empty() ? p->libs[n % p->libs.size()] : o.lib;
    double a = wall();
    Res r = run1(o, p, lib, seed, 200);
    slow = std::max(slow, wall() - a);
    runs++;
    perlib[lib]++;
    dig = mix(dig, r.num[5]);
    for (int i = 0; i < 5; i++) tot[i] += r.num[i];
    execs += r.num[6];
    for (auto &x : r.notes) notes[x.first] += x.second;
    if (r.status == "ok") {
      ok++;
      for (auto &x : r.nt) nt.insert(x);
      if (il.size() < 400000)
        for (auto &x : r.il) il.insert(x);
    } else if (r.status == "discard") {
      disc++;
      discwhy[r.msg]++;
    } else if (r.status == "violation" &&
               std::any_of(o.known.begin(), o.known.end(), [&](const std::regex &x) { return std::regex_search(r.msg, x); })) {
      if (!known++) emit(r, lib, seed); // a recorded finding does not end the search
    } else if (r.status == "violation") {
      viol++;
      emit(r, lib, seed);
      if (viol >= 2) break;
    } else {
      died++;
      emit(r, lib, seed);
      if (died >= 3) break;
    }
  }
  printf("SUMMARY\n");
  printf("num runs %llu\nnum ok %llu\nnum discard %llu\nnum known %llu\nnum violation %llu\nnum died %llu\nnum execs %llu\nnum sim_ns %llu\nnum "
         "points %llu\nnum "
         "switches %llu\nnum preempts %llu\nnum msgs %llu\nwall %.3f\nslowest %.3f\ndigest %016llx\n",
         (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)disc, (unsigned long long)known, (unsigned long long)viol,
         (unsigned long long)died, (unsigned long long)execs, (unsigned long long)tot[0], (unsigned long long)tot[1], (unsigned long long)tot[2],
         (unsigned long long)tot[3], (unsigned long long)tot[4], wall() - t0, slow, (unsigned long long)dig);
  for (auto &x : notes) printf("note %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
  for (auto &x : perlib) printf("lib %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
  for (auto &x : discwhy) printf("disc %llu %s\n", (unsigned long long)x.second, x.first.c_str());
  for (auto &x : nt) printf("nt %s\n", x.c_str());
  for (auto &x : il) printf("il %s\n", x.c_str());
  printf("ENDSUMMARY\n");
  return viol ? 1 : died ? 2 : 0;
}
