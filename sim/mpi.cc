// Simulated MPI transport.
#include "sim.hh"
#include "include/mpi.h"
#include <cmath>
#include <cstdlib>
#include <algorithm>

double sim_wtime();
struct Msg {
  int src, dst, tag, comm;
  u64 seq;
  size_t bytes;
  MPI_Datatype dt;
  const void *sbuf;
  std::string data;
  bool have = false;
  bool arrived = false, matched = false;
  int sreq = 0;
  u64 posthash = 0;
};
struct Req {
  int id = 0;
  bool send = false;
  bool done = false, freed = false;
  int rank = 0, src = 0, tag = 0, comm = 0;
  void *buf = nullptr;
  size_t cap = 0;
  MPI_Datatype dt = 0;
  Fiber *waiter = nullptr;
  MPI_Status st = MPI_Status();
  bool err = false;
  std::shared_ptr<Msg> m;
  size_t n = 0;
  const void *sbuf = nullptr;
  u64 poison = 0;
};
struct Coll {
  std::string name;
  int arrived = 0;
  std::vector<std::function<void()>> none;
  std::vector<const void *> sb;
  std::vector<void *> rb;
  std::vector<Fiber *> wait;
  std::vector<char> in, out;
  std::vector<std::string> sdata;
  bool done = false;
  int count;
  MPI_Datatype dt;
  int op, root;
  int first;
  size_t newcomm;
  int left = 0;
};
struct Comm {
  std::vector<int> members;
  std::vector<u64> seq;
  std::vector<bool> freed;
};
struct MpiState {
  std::map<int, Comm> comms;
  int nextcomm = 10;
  std::map<std::pair<int, u64>, std::shared_ptr<Coll>> colls;
  std::map<int, Req> reqs;
  int nextreq = 1;
  std::vector<std::deque<std::shared_ptr<Msg>>> unexpected; // per dst, arrival order
  std::vector<std::vector<int>> posted;                     // per dst, post order
  std::map<std::pair<int, int>, i64> chan;                  // last arrival time
  std::map<std::pair<int, int>, i64> partition_until;
  std::vector<bool> init, fin, dead;
  u64 seq = 0;
  u64 inflight = 0;
};
static MpiState *M() { return W->mpi; }
void mpi_begin() {
  auto *m = new MpiState;
  W->mpi = m;
  int n = W->o->nrank;
  Comm c;
  for (int i = 0; i < n; i++) c.members.push_back(i);
  c.seq.assign(n, 0);
  c.freed.assign(n, false);
  m->comms[MPI_COMM_WORLD] = c;
  m->unexpected.resize(n);
  m->posted.resize(n);
  m->init.assign(n, false);
  m->fin.assign(n, false);
  m->dead.assign(n, false);
}
void mpi_end() {
  if (W->x->ok())
    for (auto &q : W->mpi->unexpected)
      if (!q.empty()) {
        flag(strf("message from rank %d to rank %d tag %d (%zu bytes) was never received", q[0]->src, q[0]->dst, q[0]->tag, q[0]->bytes));
        break;
      }
  delete W->mpi;
  W->mpi = nullptr;
}
void mpi_rank_dead(int r) { M()->dead[r] = true; }
static int me() { return cur->rank; }
static size_t dtsz(MPI_Datatype d) { return d & 255; }
[[noreturn]] static void fatal(const std::string &s) {
  flag("MPI error: " + s);
  rank_end(E_ABORTED, 15);
}
static Comm *comm_of(MPI_Comm c) {
  static Comm self;
  if (c == MPI_COMM_SELF) {
    self.members = {me()};
    if (self.seq.size() != 1) { self.seq = {0}; }
    return &self;
  }
  auto it = M()->comms.find(c);
  if (it == M()->comms.end()) fatal("invalid communicator");
  return &it->second;
}
static void chk(MPI_Comm c) {
  if (!M()->init[me()]) fatal("call before MPI_Init");
  if (M()->fin[me()]) fatal("call after MPI_Finalize");
  Comm *k = comm_of(c);
  if (c != MPI_COMM_SELF && k->freed.size() && k->freed[me()]) fatal("communicator already freed");
  if (cur->tid != 0) flag("MPI called from a worker thread");
}

extern "C" {
int MPI_Init(int *, char ***) {
  point(10);
  if (M()->init[me()]) fatal("MPI_Init twice");
  M()->init[me()] = true;
  return 0;
}
int MPI_Init_thread(int *a, char ***b, int, int *p) {
  if (p) *p = MPI_THREAD_MULTIPLE;
  return MPI_Init(a, b);
}
int MPI_Initialized(int *f) {
  *f = M()->init[me()];
  return 0;
}
int MPI_Finalized(int *f) {
  *f = M()->fin[me()];
  return 0;
}
int MPI_Abort(MPI_Comm, int code) { rank_end(E_ABORTED, code ? code : 1); }
int MPI_Comm_rank(MPI_Comm c, int *r) {
  chk(c);
  *r = c == MPI_COMM_SELF ? 0 : me();
  return 0;
}
int MPI_Comm_size(MPI_Comm c, int *r) {
  chk(c);
  *r = (int)comm_of(c)->members.size();
  return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Get_processor_name(char *b, int *n) {
  strcpy(b, "simnode");
  *n = 7;
  return 0;
}
int MPI_Error_string(int e, char *b, int *n) {
  *n = sprintf(b, "simulated MPI error %d", e);
  return 0;
}
double MPI_Wtime(void) { return sim_wtime(); }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Type_size(MPI_Datatype d, int *s) {
  *s = (int)dtsz(d);
  return 0;
}
}

// ------------------------------------------------------------- point to point
static void complete(Req &r) {
  r.done = true;
  if (r.waiter) {
    Fiber *f = r.waiter;
    r.waiter = nullptr;
    wakeup(f);
  }
}
static void matchup(const std::shared_ptr<Msg> &m, Req &r) {
  m->matched = true;
  W->x->msgs++;
  if (!m->have) {
    m->data.assign((const char *)m->sbuf, m->bytes);
    m->have = true;
  }
  if (r.poison && hash_bytes(r.buf, r.cap) != r.poison) { flag(strf("receive buffer of rank %d written while its receive was pending", r.rank)); }
  r.st.MPI_SOURCE = m->src;
  r.st.MPI_TAG = m->tag;
  r.st.MPI_ERROR = 0;
  r.st._count = (i64)m->bytes;
  if (m->bytes > r.cap) {
    flag(strf("message truncated: rank %d posted %zu bytes, rank %d sent %zu (tag %d)", r.rank, r.cap, m->src, m->bytes, m->tag));
    r.err = true;
    r.st.MPI_ERROR = MPI_ERR_TRUNCATE;
  }
  if (m->dt != r.dt) flag(strf("datatype mismatch between rank %d and rank %d", m->src, r.rank));
  memcpy(r.buf, m->data.data(), std::min(m->bytes, r.cap));
  complete(r);
  if (m->sreq) {
    int sid = m->sreq;
    i64 a = decide(K_ACK, 0, [](Rng &g) -> i64 {
      auto &p = W->o->pol;
      return g.chance(p.p_ack) ? 1 + (i64)(-p.lat_scale * std::log(1 - g.uni())) : 0;
    });
    if (a > 0)
      W->at(W->now + a, [sid] {
        auto it = M()->reqs.find(sid);
        if (it != M()->reqs.end()) complete(it->second);
      });
    else {
      auto it = M()->reqs.find(sid);
      if (it != M()->reqs.end()) complete(it->second);
    }
  }
}
static bool fits(const Req &r, const Msg &m) {
  return !r.done && !r.m && r.comm == m.comm && (r.src == MPI_ANY_SOURCE || r.src == m.src) && (r.tag == MPI_ANY_TAG || r.tag == m.tag);
}
static void arrive(std::shared_ptr<Msg> m) {
  if (M()->dead[m->dst] || M()->dead[m->src]) return;
  m->arrived = true;
  auto &P = M()->posted[m->dst];
  for (size_t i = 0; i < P.size(); i++) {
    Req &r = M()->reqs[P[i]];
    if (fits(r, *m)) {
      P.erase(P.begin() + i);
      r.m = m;
      M()->inflight--;
      matchup(m, r);
      return;
    }
  }
  M()->unexpected[m->dst].push_back(m);
}
static int post_send(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, bool sync) {
  Comm *k = comm_of(c);
  if (dst < 0 || dst >= (int)k->members.size()) fatal(strf("send to invalid rank %d", dst));
  if (n < 0) fatal("negative count");
  auto m = std::make_shared<Msg>();
  m->src = me();
  m->dst = k->members[dst];
  m->tag = tag;
  m->comm = c;
  m->seq = M()->seq++;
  m->bytes = n * dtsz(dt);
  m->dt = dt;
  m->sbuf = b;
  Req r;
  r.id = M()->nextreq++;
  r.send = true;
  r.rank = me();
  r.m = m;
  r.sbuf = b;
  r.n = m->bytes;
  r.poison = hash_bytes(b, m->bytes);
  r.comm = c;
  if (sync) m->sreq = r.id;
  if (!sync || decide(K_RDT, 0, [](Rng &g) -> i64 { return g.chance(W->o->pol.p_rdt); })) {
    m->data.assign((const char *)b, m->bytes);
    m->have = true;
  }
  r.done = !sync;
  int id = r.id;
  M()->reqs[id] = r;
  M()->inflight++;
  W->x->maxinflight = std::max(W->x->maxinflight, M()->inflight);
  W->log(500 + m->src * 16 + m->dst, tag * 1000003ull + m->bytes);
  i64 lat = decide(K_LAT, 1000, [](Rng &g) -> i64 {
    auto &p = W->o->pol;
    return g.chance(p.p_lat) ? 1 + (i64)(-p.lat_scale * std::log(1 - g.uni())) : 1000;
  });
  if (lat > 1000) sim->note("fault.delay");
  i64 t = W->now + lat;
  auto &last = M()->chan[{m->src, m->dst}];
  if (t <= last) t = last + 1;
  last = t; // channels are FIFO
  W->at(t, [m] { arrive(m); });
  return id;
}
static int post_recv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c) {
  Comm *k = comm_of(c);
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)k->members.size())) fatal(strf("receive from invalid rank %d", src));
  if (n < 0) fatal("negative count");
  Req r;
  r.id = M()->nextreq++;
  r.rank = me();
  r.src = src;
  r.tag = tag;
  r.comm = c;
  r.buf = b;
  r.cap = n * dtsz(dt);
  r.dt = dt;
  memset(b, 0xEB ^ (int)(W->o->fill & 0x1f), r.cap);
  r.poison = hash_bytes(b, r.cap); // contents undefined until completion
  int id = r.id;
  M()->reqs[id] = r;
  for (auto &o : M()->reqs)
    if (o.first != id && o.second.rank == me() && !o.second.done) {
      Req &q = o.second;
      const char *lo = q.send ? (const char *)q.sbuf : (char *)q.buf;
      size_t l = q.send ? q.n : q.cap;
      if (lo < (char *)b + r.cap && (char *)b < lo + l) {
        flag("overlapping communication buffers in flight");
        break;
      }
    }
  auto &U = M()->unexpected[me()];
  for (size_t i = 0; i < U.size(); i++)
    if (fits(M()->reqs[id], *U[i])) {
      auto m = U[i];
      U.erase(U.begin() + i);
      M()->inflight--;
      M()->reqs[id].m = m;
      matchup(m, M()->reqs[id]);
      return id;
    }
  M()->posted[me()].push_back(id);
  return id;
}
static int finish(int id, MPI_Status *st) { // request complete: hand status back
  Req &r = M()->reqs[id];
  if (r.rank != me()) fatal("request belongs to another rank");
  if (r.send && r.n && hash_bytes(r.sbuf, r.n) != r.poison && r.m && r.m->sreq) flag("send buffer modified before the send completed");
  if (st) {
    *st = r.st;
    if (r.send) memset(st, 0, sizeof *st);
  }
  bool err = r.err;
  M()->reqs.erase(id);
  if (err) { fatal("message truncated"); }
  return 0;
}
static int wait_id(int id, const char *what, MPI_Status *st) {
  for (;;) {
    auto it = M()->reqs.find(id);
    if (it == M()->reqs.end()) fatal("wait on an invalid request");
    if (it->second.done) break;
    it->second.waiter = cur;
    block(what);
  }
  return finish(id, st);
}
static const char *desc(const char *n, int peer, int tag) {
  static std::deque<std::string> keep;
  keep.push_back(strf("%s(peer %d, tag %d)", n, peer, tag));
  if (keep.size() > 64) keep.pop_front();
  cur->what2 = keep.back();
  return cur->what2.c_str();
}
extern "C" {
int MPI_Send(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) {
  chk(c);
  point(20);
  if (dst == MPI_PROC_NULL) return 0;
  bool rdv = decide(K_EAGER, 0, [](Rng &g) -> i64 { return g.chance(W->o->pol.p_eager); });
  if (rdv) sim->note("fault.rendezvous");
  int id = post_send(b, n, dt, dst, tag, c, rdv);
  return wait_id(id, desc("MPI_Send", dst, tag), nullptr);
}
int MPI_Ssend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) {
  chk(c);
  point(20);
  int id = post_send(b, n, dt, dst, tag, c, true);
  return wait_id(id, desc("MPI_Ssend", dst, tag), nullptr);
}
int MPI_Bsend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) {
  chk(c);
  point(20);
  int id = post_send(b, n, dt, dst, tag, c, false);
  return finish(id, nullptr);
}
int MPI_Rsend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, dt, dst, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status *st) {
  chk(c);
  point(21);
  if (src == MPI_PROC_NULL) return 0;
  int id = post_recv(b, n, dt, src, tag, c);
  return wait_id(id, desc("MPI_Recv", src, tag), st);
}
int MPI_Isend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request *q) {
  chk(c);
  point(22);
  bool rdv = decide(K_EAGER, 0, [](Rng &g) -> i64 { return g.chance(W->o->pol.p_eager); });
  *q = post_send(b, n, dt, dst, tag, c, rdv);
  return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request *q) {
  chk(c);
  point(22);
  *q = post_send(b, n, dt, dst, tag, c, true);
  return 0;
}
int MPI_Ibsend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request *q) {
  chk(c);
  point(22);
  *q = post_send(b, n, dt, dst, tag, c, false);
  return 0;
}
int MPI_Irsend(const void *b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request *q) { return MPI_Isend(b, n, dt, dst, tag, c, q); }
int MPI_Irecv(void *b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request *q) {
  chk(c);
  point(23);
  *q = post_recv(b, n, dt, src, tag, c);
  return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int stag, void *rb, int rn, MPI_Datatype rd, int src, int rtag, MPI_Comm c,
                 MPI_Status *st) {
  chk(c);
  point(24);
  int s = 0;
  int r = src == MPI_PROC_NULL ? 0 : post_recv(rb, rn, rd, src, rtag, c);
  if (dst != MPI_PROC_NULL) s = post_send(sb, sn, sd, dst, stag, c, true);
  if (s) wait_id(s, desc("MPI_Sendrecv(send)", dst, stag), nullptr);
  if (r) wait_id(r, desc("MPI_Sendrecv(recv)", src, rtag), st);
  return 0;
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
  point(25);
  if (*q == MPI_REQUEST_NULL) {
    if (st) memset(st, 0, sizeof *st), st->MPI_SOURCE = -1;
    return 0;
  }
  auto it = M()->reqs.find(*q);
  if (it == M()->reqs.end()) fatal("wait on an invalid request");
  Req &r = it->second;
  wait_id(*q, r.send ? desc("MPI_Wait(send)", r.m ? r.m->dst : -1, r.m ? r.m->tag : -1) : desc("MPI_Wait(recv)", r.src, r.tag), st);
  *q = MPI_REQUEST_NULL;
  return 0;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
  for (int i = 0; i < n; i++) MPI_Wait(q + i, st ? st + i : nullptr);
  return 0;
}
int MPI_Test(MPI_Request *q, int *f, MPI_Status *st) {
  if (*q == MPI_REQUEST_NULL) {
    point(26);
    *f = 1;
    return 0;
  }
  auto it = M()->reqs.find(*q);
  if (it == M()->reqs.end()) fatal("test on an invalid request");
  if (!it->second.done) {
    poll_point(26);
    it = M()->reqs.find(*q);
  }
  if (it->second.done) {
    finish(*q, st);
    *q = MPI_REQUEST_NULL;
    *f = 1;
  } else *f = 0;
  return 0;
}
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *st) {
  *f = 1;
  for (int i = 0; i < n; i++)
    if (q[i] != MPI_REQUEST_NULL && !M()->reqs[q[i]].done) *f = 0;
  if (!*f) {
    poll_point(26);
    return 0;
  }
  return MPI_Waitall(n, q, st);
}
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) {
  for (;;) {
    bool any = false;
    for (int i = 0; i < n; i++)
      if (q[i] != MPI_REQUEST_NULL) {
        any = true;
        if (M()->reqs[q[i]].done) {
          finish(q[i], st);
          q[i] = MPI_REQUEST_NULL;
          *idx = i;
          return 0;
        }
      }
    if (!any) {
      *idx = MPI_UNDEFINED;
      return 0;
    }
    poll_point(27);
  }
}
static bool probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
  for (auto &m : M()->unexpected[me()])
    if (m->comm == c && (src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) {
      if (st) {
        st->MPI_SOURCE = m->src;
        st->MPI_TAG = m->tag;
        st->_count = m->bytes;
      }
      return true;
    }
  return false;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *st) {
  chk(c);
  poll_point(28);
  *f = probe(src, tag, c, st);
  return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
  chk(c);
  while (!probe(src, tag, c, st)) poll_point(28);
  return 0;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype d, int *n) {
  *n = (int)(st->_count / dtsz(d));
  return 0;
}
int MPI_Cancel(MPI_Request *) { fatal("MPI_Cancel is not simulated"); }
int MPI_Request_free(MPI_Request *q) {
  *q = MPI_REQUEST_NULL;
  return 0;
}
}

// ---------------------------------------------------------------- collectives
template <class T> static void red1(T *a, const T *b, int n, int op) {
  for (int i = 0; i < n; i++) switch (op) {
    case MPI_SUM:
      a[i] += b[i];
      break;
    case MPI_PROD:
      a[i] *= b[i];
      break;
    case MPI_MAX:
      a[i] = std::max(a[i], b[i]);
      break;
    case MPI_MIN:
      a[i] = std::min(a[i], b[i]);
      break;
    default:
      fatal("reduction operator not simulated");
    }
}
static void reduce_into(void *a, const void *b, int n, MPI_Datatype dt, int op) {
  if (dt == MPI_DOUBLE) red1((double *)a, (const double *)b, n, op);
  else if (dt == MPI_FLOAT) red1((float *)a, (const float *)b, n, op);
  else if (dt == MPI_INT || dt == MPI_INT32_T) red1((int *)a, (const int *)b, n, op);
  else if (dtsz(dt) == 8) red1((i64 *)a, (const i64 *)b, n, op);
  else if (dt == MPI_UNSIGNED || dt == MPI_UINT32_T) red1((u32 *)a, (const u32 *)b, n, op);
  else if (dtsz(dt) == 1) red1((signed char *)a, (const signed char *)b, n, op);
  else fatal("reduction datatype not simulated");
}
enum { C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_GATHER, C_ALLGATHER, C_SCATTER, C_ALLTOALL, C_DUP, C_SCAN, C_EXSCAN };
static const char *cname[] = {"MPI_Barrier", "MPI_Bcast",    "MPI_Reduce",   "MPI_Allreduce", "MPI_Gather", "MPI_Allgather",
                              "MPI_Scatter", "MPI_Alltoall", "MPI_Comm_dup", "MPI_Scan",      "MPI_Exscan"};
static std::shared_ptr<Coll> coll(int what, const void *sb, void *rb, int n, MPI_Datatype dt, int op, int root, MPI_Comm c) {
  chk(c);
  point(30 + what);
  Comm *k = comm_of(c);
  int N = (int)k->members.size();
  int r = c == MPI_COMM_SELF ? 0 : me();
  u64 s = k->seq[r]++;
  auto key = std::make_pair(c == MPI_COMM_SELF ? -1000 - me() : c, s);
  auto &slot = M()->colls[key];
  std::string sig = strf("%s(n=%d,type=%d,op=%d,root=%d)", cname[what], n, dt / 256, op, root);
  if (!slot) {
    slot = std::make_shared<Coll>();
    slot->name = sig;
    slot->sdata.resize(N);
    slot->rb.assign(N, nullptr);
    slot->wait.assign(N, nullptr);
    slot->in.assign(N, 0);
    slot->count = n;
    slot->dt = dt;
    slot->op = op;
    slot->root = root;
    slot->first = me();
    W->x->colls++;
  }
  auto cl = slot;
  if (cl->name != sig) {
    flag(strf("collective mismatch: rank %d called %s while rank %d called %s", me(), sig.c_str(), cl->first, cl->name.c_str()));
    rank_end(E_ABORTED, 15);
  }
  cl->in[r] = 1;
  cl->arrived++;
  cl->rb[r] = rb;
  size_t B = (size_t)n * dtsz(dt);
  if (sb == MPI_IN_PLACE) sb = rb;
  if (sb && (what == C_REDUCE || what == C_ALLREDUCE || what == C_GATHER || what == C_ALLGATHER || what == C_SCAN || what == C_EXSCAN))
    cl->sdata[r].assign((const char *)sb, B);
  if (what == C_BCAST && r == root) cl->sdata[r].assign((const char *)rb, B);
  if (what == C_SCATTER && r == root) cl->sdata[r].assign((const char *)sb, B * N);
  if (what == C_ALLTOALL) cl->sdata[r].assign((const char *)sb, B * N);
  auto ready = [&]() -> bool {
    switch (what) { // may this rank leave?
    case C_BCAST:
      return r == root || cl->in[root];
    case C_SCATTER:
      return r == root || cl->in[root];
    case C_GATHER:
    case C_REDUCE:
      return r != root || cl->arrived == N;
    case C_SCAN:
    case C_EXSCAN:
      for (int i = 0; i < r; i++)
        if (!cl->in[i]) return false;
      return true;
    default:
      return cl->arrived == N;
    }
  };
  // wake everybody who can now leave
  bool can = cl->arrived == N || what == C_BCAST || what == C_SCATTER || what == C_SCAN || what == C_EXSCAN;
  if (can)
    for (int i = 0; i < N; i++)
      if (cl->wait[i]) {
        Fiber *f = cl->wait[i];
        cl->wait[i] = nullptr;
        i64 d = decide(K_CLAT, 0, [](Rng &g) -> i64 {
          auto &p = W->o->pol;
          return g.chance(p.p_clat) ? 1 + (i64)(-p.lat_scale * std::log(1 - g.uni())) : 0;
        });
        if (d > 0) W->at(W->now + d, [f] { wakeup(f); });
        else wakeup(f);
      }
  while (!ready()) {
    cl->wait[r] = cur;
    cur->what2 = sig;
    block(cur->what2.c_str());
  }
  switch (what) {
  case C_BARRIER:
  case C_DUP:
    break;
  case C_BCAST:
    if (r != root) memcpy(rb, cl->sdata[root].data(), B);
    break;
  case C_SCATTER:
    memcpy(rb, cl->sdata[root].data() + B * r, B);
    break;
  case C_REDUCE:
    if (r != root) break; // fallthrough
  case C_ALLREDUCE: {
    std::string a = cl->sdata[0];
    for (int i = 1; i < N; i++) reduce_into(&a[0], cl->sdata[i].data(), n, dt, op);
    memcpy(rb, a.data(), B);
    break;
  }
  case C_GATHER:
    if (r != root) break; // fallthrough
  case C_ALLGATHER:
    for (int i = 0; i < N; i++) memcpy((char *)rb + i * B, cl->sdata[i].data(), B);
    break;
  case C_ALLTOALL:
    for (int i = 0; i < N; i++) memcpy((char *)rb + i * B, cl->sdata[i].data() + r * B, B);
    break;
  case C_SCAN: {
    std::string a = cl->sdata[0];
    for (int i = 1; i <= r; i++) reduce_into(&a[0], cl->sdata[i].data(), n, dt, op);
    memcpy(rb, a.data(), B);
    break;
  }
  case C_EXSCAN: {
    if (!r) break;
    std::string a = cl->sdata[0];
    for (int i = 1; i < r; i++) reduce_into(&a[0], cl->sdata[i].data(), n, dt, op);
    memcpy(rb, a.data(), B);
    break;
  }
  }
  if (++cl->left == N) M()->colls.erase(key);
  return cl;
}
extern "C" {
int MPI_Barrier(MPI_Comm c) {
  coll(C_BARRIER, nullptr, nullptr, 0, 0, 0, 0, c);
  return 0;
}
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) {
  coll(C_BCAST, nullptr, b, n, d, 0, root, c);
  return 0;
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) {
  coll(C_REDUCE, s, r, n, d, op, root, c);
  return 0;
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
  coll(C_ALLREDUCE, s, r, n, d, op, 0, c);
  return 0;
}
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
  coll(C_SCAN, s, r, n, d, op, 0, c);
  return 0;
}
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) {
  coll(C_EXSCAN, s, r, n, d, op, 0, c);
  return 0;
}
int MPI_Gather(const void *s, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype, int root, MPI_Comm c) {
  if (me() == root && rn != n) fatal("gather counts differ");
  coll(C_GATHER, s, r, n, d, 0, root, c);
  return 0;
}
int MPI_Allgather(const void *s, int n, MPI_Datatype d, void *r, int rn, MPI_Datatype, MPI_Comm c) {
  if (rn != n) fatal("allgather counts differ");
  coll(C_ALLGATHER, s, r, n, d, 0, 0, c);
  return 0;
}
int MPI_Scatter(const void *s, int, MPI_Datatype, void *r, int n, MPI_Datatype d, int root, MPI_Comm c) {
  coll(C_SCATTER, s, r, n, d, 0, root, c);
  return 0;
}
int MPI_Alltoall(const void *s, int n, MPI_Datatype d, void *r, int, MPI_Datatype, MPI_Comm c) {
  coll(C_ALLTOALL, s, r, n, d, 0, 0, c);
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  auto cl = coll(C_DUP, nullptr, nullptr, 0, 0, 0, 0, c);
  if (!cl->done) {
    cl->done = true;
    cl->newcomm = M()->nextcomm++;
    Comm k = *comm_of(c);
    for (auto &s : k.seq) s = 0;
    k.freed.assign(W->o->nrank, false);
    M()->comms[(int)cl->newcomm] = k;
  }
  *o = (int)cl->newcomm;
  return 0;
}
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *) { fatal("MPI_Comm_split is not simulated"); }
int MPI_Comm_free(MPI_Comm *c) {
  chk(*c);
  Comm *k = comm_of(*c);
  if (*c != MPI_COMM_SELF) k->freed[me()] = true;
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Finalize(void) {
  chk(MPI_COMM_WORLD);
  coll(C_BARRIER, nullptr, nullptr, 0, 0, 0, 99, MPI_COMM_WORLD);
  for (auto &q : M()->reqs)
    if (q.second.rank == me()) {
      flag(q.second.send ? "MPI_Finalize with a send request never waited for" : "MPI_Finalize with a receive request never waited for");
      break;
    }
  M()->fin[me()] = true;
  RC()->res->finalized = 1;
  return 0;
}
}
