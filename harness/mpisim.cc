#include "mpisim.h"
#include <mpi.h>
#include <ucontext.h>
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "symapi.h"
struct ompi_predefined_communicator_t { char pad[1024]; };
struct ompi_predefined_datatype_t { char pad[1024]; };
struct ompi_predefined_errhandler_t { char pad[1024]; };
struct ompi_predefined_file_t { char pad[1024]; };
struct ompi_predefined_group_t { char pad[1024]; };
struct ompi_predefined_info_t { char pad[1024]; };
struct ompi_predefined_op_t { char pad[1024]; };
struct ompi_predefined_request_t { char pad[1024]; };
struct ompi_predefined_win_t { char pad[1024]; };
extern "C" {
ompi_predefined_communicator_t ompi_mpi_comm_world;
ompi_predefined_communicator_t ompi_mpi_comm_self;
ompi_predefined_communicator_t ompi_mpi_comm_null;
ompi_predefined_request_t ompi_request_null;
ompi_predefined_info_t ompi_mpi_info_null;
ompi_predefined_op_t ompi_mpi_op_null;
ompi_predefined_group_t ompi_mpi_group_null;
ompi_predefined_group_t ompi_mpi_group_empty;
ompi_predefined_errhandler_t ompi_mpi_errhandler_null;
ompi_predefined_errhandler_t ompi_mpi_errors_return;
ompi_predefined_errhandler_t ompi_mpi_errors_are_fatal;
ompi_predefined_win_t ompi_mpi_win_null;
ompi_predefined_file_t ompi_mpi_file_null;
ompi_predefined_datatype_t ompi_mpi_datatype_null;
ompi_predefined_datatype_t ompi_mpi_int;
ompi_predefined_datatype_t ompi_mpi_double;
ompi_predefined_datatype_t ompi_mpi_char;
ompi_predefined_datatype_t ompi_mpi_byte;
ompi_predefined_datatype_t ompi_mpi_unsigned_long;
ompi_predefined_datatype_t ompi_mpi_long;
ompi_predefined_datatype_t ompi_mpi_unsigned;
ompi_predefined_datatype_t ompi_mpi_float;
ompi_predefined_datatype_t ompi_mpi_unsigned_char;
ompi_predefined_datatype_t ompi_mpi_long_long_int;
ompi_predefined_datatype_t ompi_mpi_unsigned_long_long;
ompi_predefined_datatype_t ompi_mpi_cxx_bool;
ompi_predefined_datatype_t ompi_mpi_short;
ompi_predefined_datatype_t ompi_mpi_signed_char;
ompi_predefined_datatype_t ompi_mpi_packed;
ompi_predefined_datatype_t ompi_mpi_unsigned_short;
ompi_predefined_datatype_t ompi_mpi_long_double;
ompi_predefined_op_t ompi_mpi_op_sum;
ompi_predefined_op_t ompi_mpi_op_max;
ompi_predefined_op_t ompi_mpi_op_min;
ompi_predefined_op_t ompi_mpi_op_prod;
ompi_predefined_op_t ompi_mpi_op_land;
ompi_predefined_op_t ompi_mpi_op_lor;
ompi_predefined_op_t ompi_mpi_op_band;
ompi_predefined_op_t ompi_mpi_op_bor;
}
namespace {
struct Comm
{
  std::vector<int> ranks;  // world rank of each member
  int              cid;
};
struct Msg
{
  int                src, tag, cid;
  std::vector<char>  data;
};
struct Coll
{
  std::string                    kind;
  std::map<int, std::vector<char>> in;
  std::map<int, std::vector<int>>  aux;
  int                            done = 0;
  std::vector<Comm*>             split;
};
struct Req
{
  Comm*        c;
  long         seq;
  void*        out;
  int          count;
  MPI_Datatype t;
  MPI_Op       op;
};
struct Rank
{
  ucontext_t         ctx;
  std::vector<char>  stack;
  bool               done = false;
  std::function<bool()> wait;
  std::exception_ptr ex;
};
int                                   g_n = 1, g_me = 0, g_slow = 0, g_order = 0, g_choices = 0;
bool                                  g_run = false;
std::vector<std::unique_ptr<Rank>>    g_rank;
ucontext_t                            g_main;
std::deque<Msg>                       g_box[16];
std::map<std::pair<int, long>, Coll>  g_coll;
std::map<std::pair<int, int>, long>   g_seq;
std::vector<std::unique_ptr<Comm>>    g_comms;
std::map<int, std::vector<Comm*>>     g_split_cache;
std::string                           g_trouble;
long                                  g_polls = 0;
int                                   g_cid = 10;
std::function<void(int)>              g_fn;

Comm*
comm(MPI_Comm c)
{
  static Comm world, self[16];
  if ((void*)c == (void*)&ompi_mpi_comm_world) {
    world.cid = 0;
    world.ranks.resize(g_n);
    for (int i = 0; i < g_n; ++i) world.ranks[i] = i;
    return &world;
  }
  if ((void*)c == (void*)&ompi_mpi_comm_self) {
    self[g_me].cid   = 1000 + g_me;
    self[g_me].ranks = {g_me};
    return &self[g_me];
  }
  for (auto& p : g_comms)
    if ((void*)p.get() == (void*)c) return p.get();
  fprintf(stderr, "mpisim: communicator not valid\n");
  abort();
}
int
lrank(Comm* c)
{
  for (size_t i = 0; i < c->ranks.size(); ++i)
    if (c->ranks[i] == g_me) return (int)i;
  fprintf(stderr, "mpisim: rank not in communicator\n");
  abort();
}
size_t
tsize(MPI_Datatype t)
{
  void* p = (void*)t;
  if (p == &ompi_mpi_double || p == &ompi_mpi_unsigned_long || p == &ompi_mpi_long || p == &ompi_mpi_long_long_int || p == &ompi_mpi_unsigned_long_long) return 8;
  if (p == &ompi_mpi_int || p == &ompi_mpi_unsigned || p == &ompi_mpi_float) return 4;
  return 1;
}
void
block(const std::function<bool()>& ready)
{
  if (ready()) return;
  if (!g_run) {
    fprintf(stderr, "mpisim: single rank would wait forever\n");
    abort();
  }
  Rank* r = g_rank[g_me].get();
  while (!ready()) {
    r->wait = ready;
    swapcontext(&r->ctx, &g_main);
  }
  r->wait = nullptr;
}
void
yield()
{
  if (!g_run) return;
  Rank* r = g_rank[g_me].get();
  r->wait = [] { return true; };
  swapcontext(&r->ctx, &g_main);
  r->wait = nullptr;
}
void
fail(const std::string& w)
{
  if (g_trouble.empty()) g_trouble = w;
}
// deposit a contribution, wait for everybody; fin is called with the collective's slot
long
deposit(Comm* c, const std::string& kind, const void* in, size_t bytes, const std::vector<int>& aux)
{
  long  s = g_seq[{c->cid, g_me}]++;
  Coll& k = g_coll[{c->cid, s}];
  if (k.in.empty()) k.kind = kind;
  else if (k.kind != kind) fail("collective mismatch: " + k.kind + " with " + kind);
  std::vector<char> d(bytes);
  if (bytes && in) memcpy(d.data(), in, bytes);
  k.in[lrank(c)]  = d;
  k.aux[lrank(c)] = aux;
  return s;
}
bool
complete(Comm* c, long s)
{
  return g_coll[{c->cid, s}].in.size() == c->ranks.size();
}
void
leave(Comm* c, long s)
{
  Coll& k = g_coll[{c->cid, s}];
  if (++k.done == (int)c->ranks.size()) g_coll.erase({c->cid, s});
}
template <class T>
void
fold(T* o, const T* a, int n, void* op)
{
  for (int i = 0; i < n; ++i) {
    if (op == &ompi_mpi_op_sum) o[i] = o[i] + a[i];
    else if (op == &ompi_mpi_op_max) { if (a[i] > o[i]) o[i] = a[i]; }
    else if (op == &ompi_mpi_op_min) { if (a[i] < o[i]) o[i] = a[i]; }
    else if (op == &ompi_mpi_op_prod) o[i] = o[i] * a[i];
    else { fprintf(stderr, "mpisim: operation\n"); abort(); }
  }
}
void
reduce_into(Comm* c, long s, void* out, int count, MPI_Datatype t, MPI_Op op)
{
  Coll&  k = g_coll[{c->cid, s}];
  size_t b = count * tsize(t);
  std::vector<char> acc;
  for (auto& e : k.in) {
    if (e.second.size() != b) {
      fail("reduction of different lengths");
      return;
    }
    if (acc.empty()) { acc = e.second; continue; }
    if ((void*)t == (void*)&ompi_mpi_double) fold((double*)acc.data(), (const double*)e.second.data(), count, (void*)op);
    else if ((void*)t == (void*)&ompi_mpi_int) fold((int*)acc.data(), (const int*)e.second.data(), count, (void*)op);
    else if (tsize(t) == 8) fold((long*)acc.data(), (const long*)e.second.data(), count, (void*)op);
    else { fprintf(stderr, "mpisim: type\n"); abort(); }
  }
  if (b) memcpy(out, acc.data(), b);
}
void
tramp()
{
  Rank* r = g_rank[g_me].get();
  try {
    g_fn(g_me);
  } catch (...) {
    r->ex = std::current_exception();
  }
  r->done = true;
  swapcontext(&r->ctx, &g_main);
}
int
find(Comm* c, int src, int tag)
{
  std::vector<int> cand;
  std::map<int, bool> seen;
  auto& q = g_box[g_me];
  for (size_t i = 0; i < q.size(); ++i)
    if (q[i].cid == c->cid && (tag == MPI_ANY_TAG || q[i].tag == tag) && (src == MPI_ANY_SOURCE || q[i].src == src) && !seen[q[i].src]) {
      seen[q[i].src] = true;  // messages of one sender do not overtake
      cand.push_back((int)i);
    }
  if (cand.empty()) return -1;
  return cand.size() == 1 ? cand[0] : cand[se::choice("any_source", (int)cand.size())];
}
void
status(MPI_Status* st, const Msg& m)
{
  if (st == MPI_STATUS_IGNORE) return;
  st->MPI_SOURCE = m.src;
  st->MPI_TAG    = m.tag;
  st->MPI_ERROR  = 0;
  st->_ucount    = m.data.size();
}
}  // namespace
namespace mpisim {
bool
run(int n, const std::function<void(int)>& fn, int order, int choices)
{
  g_n       = n;
  g_fn      = fn;
  g_run     = true;
  g_order   = order;
  g_choices = choices;
  g_trouble.clear();
  g_polls = 0;
  g_coll.clear();
  g_seq.clear();
  for (auto& b : g_box) b.clear();
  g_rank.clear();
  for (int i = 0; i < n; ++i) {
    g_rank.emplace_back(new Rank);
    Rank* r = g_rank.back().get();
    r->stack.resize(4 << 20);
    getcontext(&r->ctx);
    r->ctx.uc_stack.ss_sp   = r->stack.data();
    r->ctx.uc_stack.ss_size = r->stack.size();
    r->ctx.uc_link          = &g_main;
    makecontext(&r->ctx, tramp, 0);
  }
  int  last = -1;
  bool ok   = true;
  for (;;) {
    std::vector<int> can;
    int              left = 0;
    for (int k = 0; k < n; ++k) {
      int i = order == 1 ? n - 1 - k : k;
      if (g_rank[i]->done) continue;
      ++left;
      g_me = i;
      if (!g_rank[i]->wait || g_rank[i]->wait()) can.push_back(i);
    }
    if (!left) break;
    if (can.empty() || !g_trouble.empty()) {
      fail("deadlock");
      ok = false;
      break;
    }
    int pick = 0;
    if (order == 2 && can.size() > 1 && g_choices > 0) {
      --g_choices;
      pick = se::choice("schedule", (int)can.size());
    } else {
      while (pick < (int)can.size() && last >= 0 && (order == 1 ? can[pick] >= last : can[pick] <= last)) ++pick;
      if (pick == (int)can.size()) pick = 0;
    }
    last = g_me = can[pick];
    swapcontext(&g_main, &g_rank[g_me]->ctx);
    if (g_rank[g_me]->done && g_rank[g_me]->ex) {
      auto ex = g_rank[g_me]->ex;
      g_run   = false;
      g_n     = 1;
      g_me    = 0;
      std::rethrow_exception(ex);
    }
  }
  if (!g_trouble.empty()) ok = false;
  g_run = false;
  g_n   = 1;
  g_me  = 0;
  return ok;
}
const char* trouble() { return g_trouble.c_str(); }
int         slow_tests() { return g_slow; }
void        set_slow_tests(int k) { g_slow = k; }
int
leftover()
{
  int k = 0;
  for (auto& b : g_box) k += (int)b.size();
  return k;
}
}  // namespace mpisim
extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Initialized(int* f) { *f = 1; return 0; }
int MPI_Comm_test_inter(MPI_Comm, int* f) { *f = 0; return 0; }
int MPI_Topo_test(MPI_Comm, int* f) { *f = MPI_UNDEFINED; return 0; }
int MPI_Finalized(int* f) { *f = 0; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int) { abort(); }
double MPI_Wtime() { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = lrank(comm(c)); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = (int)comm(c)->ranks.size(); return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int
MPI_Comm_split(MPI_Comm mc, int color, int key, MPI_Comm* out)
{
  Comm* c = comm(mc);
  int   d[2] = {color, key};
  long  s = deposit(c, "split", d, sizeof d, {});
  block([=] { return complete(c, s); });
  Coll& k = g_coll[{c->cid, s}];
  if (k.split.empty()) {
    k.split.assign(c->ranks.size(), nullptr);
    std::map<int, std::vector<std::array<int, 2>>> by;
    for (auto& e : k.in) {
      int v[2];
      memcpy(v, e.second.data(), sizeof v);
      if (v[0] != MPI_UNDEFINED) by[v[0]].push_back({v[1], e.first});
    }
    for (auto& g : by) {
      std::sort(g.second.begin(), g.second.end());
      g_comms.emplace_back(new Comm);
      Comm* nc = g_comms.back().get();
      nc->cid  = g_cid++;
      for (auto& m : g.second) {
        nc->ranks.push_back(c->ranks[m[1]]);
        k.split[m[1]] = nc;
      }
    }
  }
  Comm* mine = k.split[lrank(c)];
  *out       = mine ? (MPI_Comm)(void*)mine : MPI_COMM_NULL;
  leave(c, s);
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { return MPI_Comm_split(c, 0, lrank(comm(c)), out); }
int
MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm mc)
{
  Comm* c = comm(mc);
  Msg   m;
  m.src = lrank(c);
  m.tag = tag;
  m.cid = c->cid;
  m.data.resize(n * tsize(t));
  if (n) memcpy(m.data.data(), b, m.data.size());
  g_box[c->ranks.at(dst)].push_back(m);
  if (g_order == 2) yield();
  return 0;
}
int
MPI_Probe(int src, int tag, MPI_Comm mc, MPI_Status* st)
{
  Comm* c = comm(mc);
  auto  any = [=] { for (auto& m : g_box[g_me]) if (m.cid == c->cid && (tag == MPI_ANY_TAG || m.tag == tag) && (src == MPI_ANY_SOURCE || m.src == src)) return true; return false; };
  block(any);
  status(st, g_box[g_me][find(c, src, tag)]);
  return 0;
}
int
MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm mc, MPI_Status* st)
{
  Comm* c = comm(mc);
  auto  any = [=] { for (auto& m : g_box[g_me]) if (m.cid == c->cid && (tag == MPI_ANY_TAG || m.tag == tag) && (src == MPI_ANY_SOURCE || m.src == src)) return true; return false; };
  block(any);
  int i = find(c, src, tag);
  Msg m = g_box[g_me][i];
  g_box[g_me].erase(g_box[g_me].begin() + i);
  if (m.data.size() > n * tsize(t)) fail("message truncated");
  else if (m.data.size()) memcpy(b, m.data.data(), m.data.size());
  status(st, m);
  return 0;
}
int
MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int dst, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* s)
{
  MPI_Send(sb, sn, st, dst, stag, c);
  return MPI_Recv(rb, rn, rt, src, rtag, c, s);
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { *n = (int)(st->_ucount / tsize(t)); return 0; }
int
MPI_Barrier(MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "barrier", nullptr, 0, {});
  block([=] { return complete(c, s); });
  leave(c, s);
  return 0;
}
int
MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "bcast" + std::to_string(root), b, n * tsize(t), {});
  block([=] { return complete(c, s); });
  auto& d = g_coll[{c->cid, s}].in[root];
  if (d.size() != n * tsize(t)) fail("broadcast of different lengths");
  else if (n) memcpy(b, d.data(), d.size());
  leave(c, s);
  return 0;
}
int
MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "allreduce", in == MPI_IN_PLACE ? out : in, n * tsize(t), {});
  block([=] { return complete(c, s); });
  reduce_into(c, s, out, n, t, op);
  leave(c, s);
  return 0;
}
int
MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "reduce" + std::to_string(root), in == MPI_IN_PLACE ? out : in, n * tsize(t), {});
  block([=] { return complete(c, s); });
  if (lrank(c) == root) reduce_into(c, s, out, n, t, op);
  leave(c, s);
  return 0;
}
int
MPI_Iallreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm mc, MPI_Request* rq)
{
  Comm* c = comm(mc);
  Req*  r = new Req{c, deposit(c, "iallreduce", in == MPI_IN_PLACE ? out : in, n * tsize(t), {}), out, n, t, op};
  *rq     = (MPI_Request)(void*)r;
  return 0;
}
int
MPI_Test(MPI_Request* rq, int* flag, MPI_Status*)
{
  *flag = 1;
  if (*rq == MPI_REQUEST_NULL) return 0;
  Req* r = (Req*)(void*)*rq;
  if (!complete(r->c, r->seq)) {
    *flag = 0;
    Comm* c = r->c;
    long  s = r->seq;
    // a polling rank that cannot progress lets the others run; it is woken by any progress
    if (g_run) {
      if (++g_polls > 100000) fail("deadlock while polling");
      yield();
    } else {
      fail("polling forever");
      fprintf(stderr, "mpisim: single rank polls forever\n");
      abort();
    }
    return 0;
  }
  if (g_slow > 0) {
    --g_slow;
    if (se::choice("not_yet", 2)) { *flag = 0; return 0; }
  }
  reduce_into(r->c, r->seq, r->out, r->count, r->t, r->op);
  leave(r->c, r->seq);
  delete r;
  *rq = MPI_REQUEST_NULL;
  return 0;
}
int
MPI_Wait(MPI_Request* rq, MPI_Status*)
{
  if (*rq == MPI_REQUEST_NULL) return 0;
  Req* r = (Req*)(void*)*rq;
  block([=] { return complete(r->c, r->seq); });
  reduce_into(r->c, r->seq, r->out, r->count, r->t, r->op);
  leave(r->c, r->seq);
  delete r;
  *rq = MPI_REQUEST_NULL;
  return 0;
}
int
MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* dp, MPI_Datatype rt, int root, MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "gatherv" + std::to_string(root), sb, sn * tsize(st), {});
  block([=] { return complete(c, s); });
  if (lrank(c) == root)
    for (auto& e : g_coll[{c->cid, s}].in) {
      if (e.second.size() > rc[e.first] * tsize(rt)) { fail("gather: message truncated"); continue; }
      if (e.second.size()) memcpy((char*)rb + dp[e.first] * tsize(rt), e.second.data(), e.second.size());
    }
  leave(c, s);
  return 0;
}
int
MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "gather" + std::to_string(root), sb, sn * tsize(st), {});
  block([=] { return complete(c, s); });
  if (lrank(c) == root)
    for (auto& e : g_coll[{c->cid, s}].in) {
      if (e.second.size() != rn * tsize(rt)) { fail("gather: lengths differ"); continue; }
      if (e.second.size()) memcpy((char*)rb + e.first * rn * tsize(rt), e.second.data(), e.second.size());
    }
  leave(c, s);
  return 0;
}
int
MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "allgather", sb, sn * tsize(st), {});
  block([=] { return complete(c, s); });
  for (auto& e : g_coll[{c->cid, s}].in) {
    if (e.second.size() != rn * tsize(rt)) { fail("allgather: lengths differ"); continue; }
    if (e.second.size()) memcpy((char*)rb + e.first * rn * tsize(rt), e.second.data(), e.second.size());
  }
  leave(c, s);
  return 0;
}
int
MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* dp, MPI_Datatype rt, MPI_Comm mc)
{
  Comm* c = comm(mc);
  long  s = deposit(c, "allgatherv", sb, sn * tsize(st), {});
  block([=] { return complete(c, s); });
  for (auto& e : g_coll[{c->cid, s}].in)
    if (e.second.size()) memcpy((char*)rb + dp[e.first] * tsize(rt), e.second.data(), e.second.size());
  leave(c, s);
  return 0;
}
int
MPI_Scatterv(const void* sb, const int* sc, const int* dp, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm mc)
{
  Comm* c  = comm(mc);
  int   me = lrank(c);
  std::vector<char> all;
  std::vector<int>  aux;
  if (me == root) {
    for (size_t i = 0; i < c->ranks.size(); ++i) {
      aux.push_back((int)all.size());
      aux.push_back((int)(sc[i] * tsize(st)));
      all.insert(all.end(), (const char*)sb + dp[i] * tsize(st), (const char*)sb + (dp[i] + sc[i]) * tsize(st));
    }
  }
  long s = deposit(c, "scatterv" + std::to_string(root), all.data(), all.size(), aux);
  block([=] { return complete(c, s); });
  Coll& k = g_coll[{c->cid, s}];
  int   o = k.aux[root][2 * me], b = k.aux[root][2 * me + 1];
  if (b > (int)(rn * tsize(rt))) fail("scatter: message truncated");
  else if (b) memcpy(rb, k.in[root].data() + o, b);
  leave(c, s);
  return 0;
}
int
MPI_Scatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm mc)
{
  Comm*            c = comm(mc);
  std::vector<int> sc(c->ranks.size(), sn), dp(c->ranks.size());
  for (size_t i = 0; i < dp.size(); ++i) dp[i] = (int)i * sn;
  return MPI_Scatterv(sb, sc.data(), dp.data(), st, rb, rn, rt, root, mc);
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)tsize(t); return 0; }
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return 0; }
}
