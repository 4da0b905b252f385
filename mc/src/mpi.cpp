// Substitute MPI over cooperative rank fibers.
#include "internal.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mpi.h>
#include <set>
#include <string>
#include <vector>
#define EXPORT extern "C" __attribute__((visibility("default")))
extern uint32_t mc_vc[64][64];
void mc_vc_join(const std::vector<int> &ranks);
extern int mc_rank_order();

struct Coll;
struct mc_comm_s {
  std::vector<int> g;         // world ranks
  std::vector<uint64_t> seq;  // collective sequence number per member
  std::vector<char> freed;
  std::map<uint64_t, std::shared_ptr<Coll>> colls;
  int topo = MPI_UNDEFINED;
  std::vector<int> dims, periods;
  std::vector<std::vector<int>> in, out; // dist graph neighbours per member
  int id = 0;
};
struct mc_win_s {
  MPI_Comm comm;
  std::vector<char *> base;
  std::vector<size_t> size;
  std::vector<int> du;
  bool shared = false;
  std::vector<std::map<int, int>> lock; // per origin: target -> type
  std::vector<int> fence;               // epochs opened by fence per rank
  std::vector<std::vector<uint32_t>> pending;
  std::vector<char> freed;
  int id = 0;
};
struct Msg {
  int src, dst, tag; // comm ranks
  mc_comm_s *comm;
  std::vector<char> data;
  mc_req_s *req; // send request or null once completed/detached
  uint64_t order;
};
struct mc_req_s {
  int kind; // 0 send 1 recv 2 coll
  int owner;
  bool done = false;
  uint32_t pend = 0;
  bool matched = false;
  void *buf = nullptr;
  size_t cap = 0;
  int src = 0, tag = 0;
  mc_comm_s *comm = nullptr;
  MPI_Status st{};
  std::shared_ptr<Coll> coll;
  uint64_t order = 0;
};
struct Args {
  bool here = false;
  int root = 0, op = 0;
  const void *s = nullptr;
  void *r = nullptr;
  int sn = 0, rn = 0;
  MPI_Datatype st = 0, rt = 0;
  const int *cnt = nullptr, *dsp = nullptr;
  std::vector<long> iv; // generic integer payload
  std::vector<int> a, b, c;
  const int *scnt = nullptr;
  const MPI_Aint *sd = nullptr, *rd = nullptr;
  const MPI_Datatype *sts = nullptr, *rts = nullptr;
  void **optr = nullptr;
};
struct Coll {
  const char *kind = nullptr;
  std::vector<Args> a;
  int arrived = 0;
  bool done = false;
  std::vector<mc_comm_s *> newc;
  mc_win_s *win = nullptr;
};

static std::vector<std::unique_ptr<mc_comm_s>> comms;
static std::vector<std::unique_ptr<mc_win_s>> wins;
static std::vector<std::unique_ptr<mc_req_s>> reqs;
static mc_comm_s *world = nullptr;
static std::vector<mc_comm_s *> self_;
static std::deque<Msg> msgs;          // unmatched sends
static std::deque<mc_req_s *> posted; // unmatched receives
static uint64_t order_ = 0;
static int rpn = 0;
static std::vector<int> initialised;
EXPORT void mc_set_ranks_per_node(int n) { rpn = n; }

static mc_comm_s *new_comm(const std::vector<int> &g) {
  comms.emplace_back(new mc_comm_s);
  mc_comm_s *c = comms.back().get();
  c->g = g;
  c->seq.assign(g.size(), 0);
  c->freed.assign(g.size(), 0);
  c->id = comms.size();
  return c;
}
void mpi_reset() { rpn = 0; }
void mpi_begin(int n) {
  comms.clear();
  wins.clear();
  reqs.clear();
  self_.clear();
  msgs.clear();
  posted.clear();
  std::vector<int> g;
  for (int i = 0; i < n; i++)
    g.push_back(i);
  world = new_comm(g);
  for (int i = 0; i < n; i++)
    self_.push_back(new_comm({i}));
  initialised.assign(n, 0);
  memset(mc_vc, 0, 64 * 64 * 4);
  for (int i = 0; i < 64; i++)
    mc_vc[i][i] = 1;
}
void mpi_end() {
  for (auto &m : msgs)
    if (m.src != m.dst || true)
      mc_fail("mpi", "message from rank %d to rank %d (tag %d) never received",
              m.comm->g[m.src], m.comm->g[m.dst], m.tag);
  for (auto *r : posted)
    mc_fail("mpi", "receive posted by rank %d (tag %d) never matched", r->owner,
            r->tag);
  for (auto &c : comms)
    for (auto &kv : c->colls)
      if (!kv.second->done)
        mc_fail("mpi", "collective %s entered by only %d of %zu ranks",
                kv.second->kind, kv.second->arrived, c->g.size());
  for (auto &r : reqs)
    if (!r->done)
      mc_fail("mpi", "a request of rank %d was never completed", r->owner);
  rpn = 0;
}
static int crank(mc_comm_s *c) {
  int w = mc_rank();
  for (size_t i = 0; i < c->g.size(); i++)
    if (c->g[i] == w)
      return i;
  mc_fail("mpi", "rank %d is not a member of the communicator it uses", w);
}
static mc_comm_s *C(MPI_Comm c) {
  if (!world)
    mpi_begin(1);
  if (c == MPI_COMM_WORLD)
    return world;
  if (c == MPI_COMM_SELF)
    return self_[mc_rank()];
  if (c == MPI_COMM_NULL)
    mc_fail("mpi", "MPI_COMM_NULL used as a communicator");
  bool ok = false;
  for (auto &x : comms)
    if (x.get() == c)
      ok = true;
  if (!ok)
    mc_fail("mpi", "invalid communicator handle");
  if (c->freed[crank(c)])
    mc_fail("mpi", "communicator used after MPI_Comm_free");
  return c;
}
static size_t tsz(MPI_Datatype t) {
  switch (t) {
  case MPI_CHAR:
  case MPI_BYTE:
  case MPI_UINT8_T:
  case MPI_INT8_T:
  case MPI_CXX_BOOL:
    return 1;
  case MPI_INT:
  case MPI_FLOAT:
  case MPI_UNSIGNED:
  case MPI_INT32_T:
  case MPI_UINT32_T:
    return 4;
  case MPI_INT64_T:
  case MPI_UINT64_T:
  case MPI_DOUBLE:
  case MPI_LONG:
  case MPI_UNSIGNED_LONG:
  case MPI_LONG_LONG:
    return 8;
  }
  mc_fail("mpi", "invalid datatype %d", t);
}
template <typename T> static void op1(int op, T *io, const T *x, size_t n) {
  for (size_t i = 0; i < n; i++)
    switch (op) {
    case MPI_SUM:
      io[i] = io[i] + x[i];
      break;
    case MPI_MIN:
      io[i] = std::min(io[i], x[i]);
      break;
    case MPI_MAX:
      io[i] = std::max(io[i], x[i]);
      break;
    case MPI_PROD:
      io[i] = io[i] * x[i];
      break;
    case MPI_LOR:
      io[i] = (io[i] || x[i]);
      break;
    case MPI_LAND:
      io[i] = (io[i] && x[i]);
      break;
    case MPI_REPLACE:
      io[i] = x[i];
      break;
    case MPI_NO_OP:
      break;
    default:
      mc_fail("mpi", "unsupported reduction op %d", op);
    }
}
static void apply(int op, MPI_Datatype t, void *io, const void *x, size_t n) {
  switch (t) {
  case MPI_INT:
  case MPI_INT32_T:
    return op1(op, (int32_t *)io, (const int32_t *)x, n);
  case MPI_UNSIGNED:
  case MPI_UINT32_T:
    return op1(op, (uint32_t *)io, (const uint32_t *)x, n);
  case MPI_INT64_T:
  case MPI_LONG:
  case MPI_LONG_LONG:
    return op1(op, (int64_t *)io, (const int64_t *)x, n);
  case MPI_UINT64_T:
  case MPI_UNSIGNED_LONG:
    return op1(op, (uint64_t *)io, (const uint64_t *)x, n);
  case MPI_DOUBLE:
    return op1(op, (double *)io, (const double *)x, n);
  case MPI_FLOAT:
    return op1(op, (float *)io, (const float *)x, n);
  case MPI_CHAR:
  case MPI_INT8_T:
    return op1(op, (int8_t *)io, (const int8_t *)x, n);
  case MPI_UINT8_T:
    return op1(op, (uint8_t *)io, (const uint8_t *)x, n);
  }
  mc_fail("mpi", "reduction on datatype %d", t);
}
static void use(const void *p, size_t n, int w, const char *what) {
  if (!n)
    return;
  if (!p)
    mc_fail("mpi", "%s with a null buffer", what);
  mc_host_access(p, n, w, what);
}
static void alias(const void *s, size_t ns, const void *r, size_t nr,
                  const char *what) {
  if (s == MPI_IN_PLACE || !ns || !nr)
    return;
  if ((const char *)s < (const char *)r + nr &&
      (const char *)r < (const char *)s + ns)
    mc_fail("mpi", "%s: send and receive buffers overlap", what);
}
static void execute(mc_comm_s *c, Coll &k);
static std::shared_ptr<Coll> enter(mc_comm_s *c, const char *kind, Args &&a,
                                   bool block = true) {
  int me = crank(c);
  uint64_t s = c->seq[me]++;
  auto &p = c->colls[s];
  if (!p) {
    p = std::make_shared<Coll>();
    p->kind = kind;
    p->a.resize(c->g.size());
    p->newc.resize(c->g.size());
  }
  auto k = p;
  if (strcmp(k->kind, kind))
    mc_fail("mpi", "collective mismatch: rank %d calls %s where others call %s",
            mc_rank(), kind, k->kind);
  a.here = true;
  k->a[me] = std::move(a);
  k->arrived++;
  if (k->arrived == (int)c->g.size()) {
    for (size_t i = 1; i < k->a.size(); i++) {
      if (k->a[i].root != k->a[0].root)
        mc_fail("mpi", "%s: ranks disagree on the root", kind);
      if (k->a[i].op != k->a[0].op)
        mc_fail("mpi", "%s: ranks disagree on the operation", kind);
    }
    mc_vc_join(c->g);
    execute(c, *k);
    k->done = true;
    c->colls.erase(s);
  } else if (block)
    mc_block([](void *x) -> int { return ((Coll *)x)->done; }, k.get(), kind);
  return k;
}
static const void *sb(const Args &a) {
  return a.s == MPI_IN_PLACE ? a.r : a.s;
}
static void execute(mc_comm_s *c, Coll &k) {
  const size_t n = c->g.size();
  std::string kind = k.kind;
  auto same = [&](bool cnt) {
    for (size_t i = 1; i < n; i++) {
      if (k.a[i].st != k.a[0].st)
        mc_fail("mpi", "%s: ranks disagree on the datatype", k.kind);
      if (cnt && k.a[i].sn != k.a[0].sn)
        mc_fail("mpi", "%s: ranks disagree on the count (%d vs %d)", k.kind,
                k.a[i].sn, k.a[0].sn);
    }
  };
  if (kind == "MPI_Allreduce" || kind == "MPI_Reduce") {
    same(true);
    size_t b = tsz(k.a[0].st) * k.a[0].sn;
    std::vector<char> acc((const char *)sb(k.a[0]),
                          (const char *)sb(k.a[0]) + b);
    for (size_t i = 1; i < n; i++)
      apply(k.a[0].op, k.a[0].st, acc.data(), sb(k.a[i]), k.a[0].sn);
    for (size_t i = 0; i < n; i++)
      if (kind == "MPI_Allreduce" || (int)i == k.a[0].root)
        memcpy(k.a[i].r, acc.data(), b);
  } else if (kind == "MPI_Scan" || kind == "MPI_Exscan") {
    same(true);
    size_t b = tsz(k.a[0].st) * k.a[0].sn;
    std::vector<char> acc(b), tmp(b);
    for (size_t i = 0; i < n; i++) {
      if (b)
        memcpy(tmp.data(), sb(k.a[i]), b);
      if (kind == "MPI_Exscan") {
        if (i)
          memcpy(k.a[i].r, acc.data(), b);
        if (i == 0)
          acc = tmp;
        else
          apply(k.a[0].op, k.a[0].st, acc.data(), tmp.data(), k.a[0].sn);
      } else {
        if (i == 0)
          acc = tmp;
        else
          apply(k.a[0].op, k.a[0].st, acc.data(), tmp.data(), k.a[0].sn);
        memcpy(k.a[i].r, acc.data(), b);
      }
    }
  } else if (kind == "MPI_Bcast") {
    int root = k.a[0].root;
    size_t b = tsz(k.a[root].st) * k.a[root].sn;
    for (size_t i = 0; i < n; i++) {
      if (tsz(k.a[i].st) * k.a[i].sn != b)
        mc_fail("mpi", "MPI_Bcast: ranks disagree on the message size");
      if ((int)i != root && b)
        memcpy(k.a[i].r, k.a[root].r, b);
    }
  } else if (kind == "MPI_Gather" || kind == "MPI_Allgather") {
    for (size_t d = 0; d < n; d++) {
      if (kind == "MPI_Gather" && (int)d != k.a[0].root)
        continue;
      size_t rb = tsz(k.a[d].rt) * k.a[d].rn;
      for (size_t i = 0; i < n; i++) {
        if (k.a[i].s == MPI_IN_PLACE)
          continue;
        size_t b = tsz(k.a[i].st) * k.a[i].sn;
        if (b != rb)
          mc_fail("mpi", "%s: send and receive sizes differ", k.kind);
        if (b)
          memcpy((char *)k.a[d].r + i * rb, k.a[i].s, b);
      }
    }
  } else if (kind == "MPI_Gatherv" || kind == "MPI_Allgatherv") {
    for (size_t d = 0; d < n; d++) {
      if (kind == "MPI_Gatherv" && (int)d != k.a[0].root)
        continue;
      size_t es = tsz(k.a[d].rt);
      for (size_t i = 0; i < n; i++) {
        if (k.a[i].s == MPI_IN_PLACE)
          continue;
        size_t b = tsz(k.a[i].st) * k.a[i].sn;
        if (b != es * k.a[d].cnt[i])
          mc_fail("mpi", "%s: rank %zu sends %zu bytes, rank %zu expects %zu",
                  k.kind, i, b, d, es * k.a[d].cnt[i]);
        if (b)
          memcpy((char *)k.a[d].r + es * k.a[d].dsp[i], k.a[i].s, b);
      }
    }
  } else if (kind == "MPI_Alltoall") {
    for (size_t d = 0; d < n; d++)
      for (size_t i = 0; i < n; i++) {
        size_t b = tsz(k.a[i].st) * k.a[i].sn;
        if (b != tsz(k.a[d].rt) * k.a[d].rn)
          mc_fail("mpi", "MPI_Alltoall: sizes differ");
        memcpy((char *)k.a[d].r + i * b, (const char *)k.a[i].s + d * b, b);
      }
  } else if (kind == "MPI_Comm_split" || kind == "MPI_Comm_dup") {
    std::map<long, std::vector<std::pair<long, int>>> by;
    for (size_t i = 0; i < n; i++)
      by[k.a[i].iv[0]].push_back({k.a[i].iv[1], (int)i});
    for (auto &kv : by) {
      if (kv.first == MPI_UNDEFINED)
        continue;
      std::sort(kv.second.begin(), kv.second.end());
      std::vector<int> g;
      for (auto &x : kv.second)
        g.push_back(c->g[x.second]);
      mc_comm_s *nc = new_comm(g);
      for (auto &x : kv.second)
        k.newc[x.second] = nc;
    }
  } else if (kind == "MPI_Cart_create") {
    size_t tot = 1;
    for (int d : k.a[0].a)
      tot *= d;
    for (size_t i = 1; i < n; i++)
      if (k.a[i].a != k.a[0].a || k.a[i].b != k.a[0].b)
        mc_fail("mpi", "MPI_Cart_create: ranks disagree on the topology");
    if (tot > n)
      mc_fail("mpi", "MPI_Cart_create: topology larger than communicator");
    std::vector<int> g(c->g.begin(), c->g.begin() + tot);
    mc_comm_s *nc = new_comm(g);
    nc->topo = MPI_CART;
    nc->dims = k.a[0].a;
    nc->periods = k.a[0].b;
    for (size_t i = 0; i < tot; i++)
      k.newc[i] = nc;
  } else if (kind == "MPI_Dist_graph_create" ||
             kind == "MPI_Dist_graph_create_adjacent") {
    mc_comm_s *nc = new_comm(c->g);
    nc->topo = MPI_DIST_GRAPH;
    nc->in.resize(n);
    nc->out.resize(n);
    if (kind == "MPI_Dist_graph_create") {
      for (size_t i = 0; i < n; i++) {
        size_t p = 0;
        for (size_t x = 0; x < k.a[i].a.size(); x++)
          for (int y = 0; y < k.a[i].b[x]; y++, p++) {
            int s = k.a[i].a[x], d = k.a[i].c[p];
            if (s < 0 || s >= (int)n || d < 0 || d >= (int)n)
              mc_fail("mpi", "MPI_Dist_graph_create: invalid rank in edge");
            nc->out[s].push_back(d);
            nc->in[d].push_back(s);
          }
      }
      for (size_t i = 0; i < n; i++) {
        // the order is implementation defined
        std::sort(nc->in[i].begin(), nc->in[i].end());
        std::sort(nc->out[i].begin(), nc->out[i].end());
        if (mc_rank_order() == 1) {
          std::reverse(nc->in[i].begin(), nc->in[i].end());
          std::reverse(nc->out[i].begin(), nc->out[i].end());
        }
      }
    } else {
      for (size_t i = 0; i < n; i++) {
        nc->in[i] = k.a[i].a;
        nc->out[i] = k.a[i].b;
        for (int r : nc->in[i])
          if (r < 0 || r >= (int)n)
            mc_fail("mpi", "MPI_Dist_graph_create_adjacent: invalid rank");
        for (int r : nc->out[i])
          if (r < 0 || r >= (int)n)
            mc_fail("mpi", "MPI_Dist_graph_create_adjacent: invalid rank");
      }
      for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++)
          if (std::count(nc->out[i].begin(), nc->out[i].end(), (int)j) !=
              std::count(nc->in[j].begin(), nc->in[j].end(), (int)i))
            mc_fail("mpi",
                    "MPI_Dist_graph_create_adjacent: edge %zu->%zu is not "
                    "declared consistently by both ends",
                    i, j);
    }
    for (size_t i = 0; i < n; i++)
      k.newc[i] = nc;
  } else if (kind == "MPI_Neighbor_alltoall" ||
             kind == "MPI_Neighbor_alltoallw") {
    bool w = kind == "MPI_Neighbor_alltoallw";
    for (size_t d = 0; d < n; d++) {
      std::map<int, int> seen;
      for (size_t q = 0; q < c->in[d].size(); q++) {
        int s = c->in[d][q];
        int occ = seen[s]++;
        int pos = -1;
        for (size_t z = 0, o = 0; z < c->out[s].size(); z++)
          if (c->out[s][z] == (int)d) {
            if ((int)o == occ) {
              pos = z;
              break;
            }
            o++;
          }
        if (pos < 0)
          mc_fail("mpi", "%s: inconsistent graph", k.kind);
        size_t sbz, rbz;
        const char *sp;
        char *rp;
        if (w) {
          sbz = tsz(k.a[s].sts[pos]) * k.a[s].scnt[pos];
          sp = (const char *)k.a[s].s + k.a[s].sd[pos];
          rbz = tsz(k.a[d].rts[q]) * k.a[d].cnt[q];
          rp = (char *)k.a[d].r + k.a[d].rd[q];
        } else {
          sbz = tsz(k.a[s].st) * k.a[s].sn;
          sp = (const char *)k.a[s].s + pos * sbz;
          rbz = tsz(k.a[d].rt) * k.a[d].rn;
          rp = (char *)k.a[d].r + q * rbz;
        }
        if (sbz != rbz)
          mc_fail("mpi", "%s: rank %d sends %zu bytes to rank %zu which expects %zu",
                  k.kind, s, sbz, d, rbz);
        if (sbz)
          memcpy(rp, sp, sbz);
      }
    }
  } else if (kind == "MPI_Win_allocate" || kind == "MPI_Win_allocate_shared") {
    wins.emplace_back(new mc_win_s);
    mc_win_s *W = wins.back().get();
    W->id = wins.size();
    W->comm = c;
    W->shared = kind == "MPI_Win_allocate_shared";
    W->lock.resize(n);
    W->fence.assign(n, 0);
    W->pending.resize(n);
    W->freed.assign(n, 0);
    size_t tot = 0;
    for (size_t i = 0; i < n; i++)
      tot += (k.a[i].iv[0] + 63) / 64 * 64;
    char *all = W->shared ? (char *)mc_alloc(tot ? tot : 64, MC_WIN, 64) : nullptr;
    for (size_t i = 0; i < n; i++) {
      size_t b = k.a[i].iv[0];
      W->size.push_back(b);
      W->du.push_back(k.a[i].iv[1]);
      char *p = W->shared ? all
                : b       ? (char *)mc_alloc(b, MC_WIN, 64)
                          : nullptr;
      all += W->shared ? (b + 63) / 64 * 64 : 0;
      W->base.push_back(p);
      *(void **)k.a[i].optr = p;
    }
    k.win = W;
  } else if (kind == "MPI_Barrier" || kind == "MPI_Ibarrier" ||
             kind == "MPI_Win_fence" || kind == "MPI_Win_free") {
  } else
    mc_fail("internal", "unknown collective %s", k.kind);
}
// ------------------------------------------------------------------ API
EXPORT int MPI_Init(int *, char ***) { return 0; }
EXPORT int MPI_Init_thread(int *, char ***, int r, int *p) {
  *p = r;
  return 0;
}
EXPORT int MPI_Initialized(int *f) {
  *f = 1;
  return 0;
}
EXPORT int MPI_Finalized(int *f) {
  *f = 0;
  return 0;
}
EXPORT int MPI_Finalize(void) { return 0; }
EXPORT int MPI_Abort(MPI_Comm, int code) {
  mc_do_abort(code);
  return 0;
}
EXPORT double MPI_Wtime(void) { return 0; }
EXPORT int MPI_Comm_rank(MPI_Comm c, int *r) {
  *r = crank(C(c));
  return 0;
}
EXPORT int MPI_Comm_size(MPI_Comm c, int *r) {
  *r = C(c)->g.size();
  return 0;
}
EXPORT int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm *o) {
  Args a;
  a.iv = {col, key};
  mc_comm_s *p = C(c);
  auto k = enter(p, "MPI_Comm_split", std::move(a));
  *o = k->newc[crank(p)];
  return 0;
}
EXPORT int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info,
                               MPI_Comm *o) {
  return MPI_Comm_split(c, rpn ? mc_rank() / rpn : 0, key, o);
}
EXPORT int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  Args a;
  mc_comm_s *p = C(c);
  a.iv = {0, crank(p)};
  auto k = enter(p, "MPI_Comm_dup", std::move(a));
  *o = k->newc[crank(p)];
  return 0;
}
EXPORT int MPI_Comm_free(MPI_Comm *c) {
  if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF)
    mc_fail("mpi", "MPI_Comm_free of a predefined communicator");
  mc_comm_s *p = C(*c);
  p->freed[crank(p)] = 1;
  *c = MPI_COMM_NULL;
  return 0;
}
static int reduce_like(const char *kind, const void *s, void *r, int n,
                       MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  mc_comm_s *p = C(c);
  size_t b = tsz(t) * n;
  bool gets = strcmp(kind, "MPI_Reduce") || crank(p) == root;
  if (s != MPI_IN_PLACE)
    use(s, b, 0, kind);
  if (gets) {
    use(r, b, 1, kind);
    alias(s, b, r, b, kind);
  }
  Args a;
  a.s = s;
  a.r = r;
  a.sn = n;
  a.st = t;
  a.op = op;
  a.root = root;
  enter(p, kind, std::move(a));
  return 0;
}
EXPORT int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t,
                         MPI_Op op, MPI_Comm c) {
  return reduce_like("MPI_Allreduce", s, r, n, t, op, 0, c);
}
EXPORT int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op,
                      int root, MPI_Comm c) {
  return reduce_like("MPI_Reduce", s, r, n, t, op, root, c);
}
EXPORT int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op,
                    MPI_Comm c) {
  return reduce_like("MPI_Scan", s, r, n, t, op, 0, c);
}
EXPORT int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op,
                      MPI_Comm c) {
  return reduce_like("MPI_Exscan", s, r, n, t, op, 0, c);
}
EXPORT int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  mc_comm_s *p = C(c);
  use(b, tsz(t) * n, crank(p) != root, "MPI_Bcast");
  Args a;
  a.r = b;
  a.sn = n;
  a.st = t;
  a.root = root;
  if (root < 0 || root >= (int)p->g.size())
    mc_fail("mpi", "MPI_Bcast: invalid root");
  enter(p, "MPI_Bcast", std::move(a));
  return 0;
}
EXPORT int MPI_Barrier(MPI_Comm c) {
  enter(C(c), "MPI_Barrier", Args{});
  return 0;
}
static mc_req_s *new_req(int kind) {
  reqs.emplace_back(new mc_req_s);
  reqs.back()->kind = kind;
  reqs.back()->owner = mc_rank();
  return reqs.back().get();
}
EXPORT int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) {
  auto k = enter(C(c), "MPI_Ibarrier", Args{}, false);
  mc_req_s *q = new_req(2);
  q->coll = k;
  *r = q;
  return 0;
}
EXPORT int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn,
                      MPI_Datatype rt, int root, MPI_Comm c) {
  mc_comm_s *p = C(c);
  Args a;
  a.s = s;
  a.sn = sn;
  a.st = st;
  a.r = r;
  a.rn = rn;
  a.rt = rt;
  a.root = root;
  if (s != MPI_IN_PLACE)
    use(s, tsz(st) * sn, 0, "MPI_Gather");
  if (crank(p) == root)
    use(r, tsz(rt) * rn * p->g.size(), 1, "MPI_Gather");
  enter(p, "MPI_Gather", std::move(a));
  return 0;
}
EXPORT int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r,
                         int rn, MPI_Datatype rt, MPI_Comm c) {
  mc_comm_s *p = C(c);
  Args a;
  a.s = s;
  a.sn = sn;
  a.st = st;
  a.r = r;
  a.rn = rn;
  a.rt = rt;
  if (s != MPI_IN_PLACE)
    use(s, tsz(st) * sn, 0, "MPI_Allgather");
  use(r, tsz(rt) * rn * p->g.size(), 1, "MPI_Allgather");
  enter(p, "MPI_Allgather", std::move(a));
  return 0;
}
static int gatherv(const char *kind, const void *s, int sn, MPI_Datatype st,
                   void *r, const int *cnt, const int *dsp, MPI_Datatype rt,
                   int root, MPI_Comm c) {
  mc_comm_s *p = C(c);
  Args a;
  a.s = s;
  a.sn = sn;
  a.st = st;
  a.r = r;
  a.rt = rt;
  a.cnt = cnt;
  a.dsp = dsp;
  a.root = root;
  if (s != MPI_IN_PLACE)
    use(s, tsz(st) * sn, 0, kind);
  if (strcmp(kind, "MPI_Gatherv") || crank(p) == root)
    for (size_t i = 0; i < p->g.size(); i++)
      use((char *)r + tsz(rt) * dsp[i], tsz(rt) * cnt[i], 1, kind);
  enter(p, kind, std::move(a));
  return 0;
}
EXPORT int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r,
                       const int *cnt, const int *dsp, MPI_Datatype rt,
                       int root, MPI_Comm c) {
  return gatherv("MPI_Gatherv", s, sn, st, r, cnt, dsp, rt, root, c);
}
EXPORT int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r,
                          const int *cnt, const int *dsp, MPI_Datatype rt,
                          MPI_Comm c) {
  return gatherv("MPI_Allgatherv", s, sn, st, r, cnt, dsp, rt, 0, c);
}
EXPORT int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn,
                        MPI_Datatype rt, MPI_Comm c) {
  mc_comm_s *p = C(c);
  Args a;
  a.s = s;
  a.sn = sn;
  a.st = st;
  a.r = r;
  a.rn = rn;
  a.rt = rt;
  use(s, tsz(st) * sn * p->g.size(), 0, "MPI_Alltoall");
  use(r, tsz(rt) * rn * p->g.size(), 1, "MPI_Alltoall");
  enter(p, "MPI_Alltoall", std::move(a));
  return 0;
}
// ---- point to point
static bool tag_ok(int want, int tag) {
  return want == MPI_ANY_TAG || want == tag;
}
static void deliver(mc_req_s *r, Msg &m) {
  if (m.data.size() > r->cap)
    mc_fail("mpi",
            "message truncation: rank %d sends %zu bytes (tag %d), rank %d "
            "receives at most %zu",
            m.comm->g[m.src], m.data.size(), m.tag, r->owner, r->cap);
  if (!m.data.empty())
    memcpy(r->buf, m.data.data(), m.data.size());
  r->matched = true;
  r->st.MPI_SOURCE = m.src;
  r->st.MPI_TAG = m.tag;
  r->st.bytes = m.data.size();
  if (m.req)
    m.req->matched = true;
}
static bool progress_p2p() {
  bool any = false;
  for (bool again = true; again;) {
    again = false;
    for (size_t pi = 0; pi < posted.size() && !again; pi++) {
      mc_req_s *r = posted[pi];
      if (r->src == MPI_ANY_SOURCE)
        continue;
      // an earlier wildcard receive could take the message: leave it
      bool blocked = false;
      for (size_t q = 0; q < pi; q++)
        if (posted[q]->owner == r->owner && posted[q]->comm == r->comm &&
            posted[q]->src == MPI_ANY_SOURCE &&
            (posted[q]->tag == MPI_ANY_TAG || r->tag == MPI_ANY_TAG ||
             posted[q]->tag == r->tag))
          blocked = true;
      if (blocked)
        continue;
      for (size_t mi = 0; mi < msgs.size(); mi++) {
        Msg &m = msgs[mi];
        if (m.comm == r->comm && m.comm->g[m.dst] == r->owner &&
            m.src == r->src && tag_ok(r->tag, m.tag)) {
          deliver(r, m);
          msgs.erase(msgs.begin() + mi);
          posted.erase(posted.begin() + pi);
          again = any = true;
          break;
        }
      }
    }
  }
  return any;
}
bool mpi_quiesce() {
  if (progress_p2p())
    return true;
  // wildcard receives: choose among the candidate sources
  for (size_t pi = 0; pi < posted.size(); pi++) {
    mc_req_s *r = posted[pi];
    if (r->src != MPI_ANY_SOURCE)
      continue;
    bool blocked = false;
    for (size_t q = 0; q < pi; q++)
      if (posted[q]->owner == r->owner && posted[q]->comm == r->comm &&
          posted[q]->src == MPI_ANY_SOURCE &&
          (posted[q]->tag == r->tag || r->tag == MPI_ANY_TAG ||
           posted[q]->tag == MPI_ANY_TAG))
        blocked = true;
    if (blocked)
      continue;
    std::vector<size_t> cand;
    std::set<int> srcs;
    for (size_t mi = 0; mi < msgs.size(); mi++) {
      Msg &m = msgs[mi];
      if (m.comm == r->comm && m.comm->g[m.dst] == r->owner &&
          tag_ok(r->tag, m.tag) && !srcs.count(m.src)) {
        srcs.insert(m.src);
        cand.push_back(mi);
      }
    }
    if (cand.empty())
      continue;
    size_t k = cand.size() > 1 ? mc_choose_mpi(cand.size()) : 0;
    Msg m = std::move(msgs[cand[k]]);
    msgs.erase(msgs.begin() + cand[k]);
    deliver(r, m);
    posted.erase(posted.begin() + pi);
    return true;
  }
  return false;
}
static mc_req_s *isend(const void *b, int n, MPI_Datatype t, int d, int tag,
                       MPI_Comm c, const char *what) {
  mc_comm_s *p = C(c);
  if (n < 0)
    mc_fail("mpi", "%s with negative count %d", what, n);
  mc_req_s *r = new_req(0);
  if (d == MPI_PROC_NULL) {
    r->matched = true;
    return r;
  }
  if (d < 0 || d >= (int)p->g.size())
    mc_fail("mpi", "%s to invalid rank %d", what, d);
  size_t sz = tsz(t) * n;
  if (sz)
    r->pend = mc_pending_begin((void *)b, sz, 0, what);
  Msg m;
  m.src = crank(p);
  m.dst = d;
  m.tag = tag;
  m.comm = p;
  m.data.assign((const char *)b, (const char *)b + sz);
  m.req = r;
  m.order = order_++;
  if (!mc_send_sync)
    r->matched = true;
  msgs.push_back(std::move(m));
  progress_p2p();
  return r;
}
static mc_req_s *irecv(void *b, int n, MPI_Datatype t, int s, int tag,
                       MPI_Comm c, const char *what) {
  mc_comm_s *p = C(c);
  if (n < 0)
    mc_fail("mpi", "%s with negative count %d", what, n);
  crank(p);
  mc_req_s *r = new_req(1);
  if (s == MPI_PROC_NULL) {
    r->matched = true;
    return r;
  }
  if (s != MPI_ANY_SOURCE && (s < 0 || s >= (int)p->g.size()))
    mc_fail("mpi", "%s from invalid rank %d", what, s);
  r->buf = b;
  r->cap = tsz(t) * n;
  r->src = s;
  r->tag = tag;
  r->comm = p;
  if (r->cap)
    r->pend = mc_pending_begin(b, r->cap, 1, what);
  posted.push_back(r);
  progress_p2p();
  return r;
}
EXPORT int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag,
                     MPI_Comm c, MPI_Request *q) {
  *q = isend(b, n, t, d, tag, c, "MPI_Isend");
  return 0;
}
EXPORT int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c,
                     MPI_Request *q) {
  *q = irecv(b, n, t, s, tag, c, "MPI_Irecv");
  return 0;
}
static int req_ready(void *x) {
  mc_req_s *r = (mc_req_s *)x;
  if (r->kind == 2)
    return r->coll->done;
  return r->matched;
}
EXPORT int MPI_Wait(MPI_Request *q, MPI_Status *st) {
  mc_req_s *r = *q;
  if (!r)
    return 0;
  if (r->done || r->owner != mc_rank())
    mc_fail("mpi", "MPI_Wait on an invalid request");
  mc_block(req_ready, r,
           r->kind == 0   ? "MPI_Wait(send)"
           : r->kind == 1 ? "MPI_Wait(recv)"
                          : "MPI_Wait(Ibarrier)");
  r->done = true;
  if (r->pend)
    mc_pending_end(r->pend);
  if (st)
    *st = r->st;
  *q = MPI_REQUEST_NULL;
  return 0;
}
EXPORT int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
  for (int i = 0; i < n; i++)
    MPI_Wait(q + i, st ? st + i : nullptr);
  return 0;
}
EXPORT int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) {
  *flag = 1;
  return MPI_Wait(q, st);
}
EXPORT int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag,
                    MPI_Comm c) {
  MPI_Request q = isend(b, n, t, d, tag, c, "MPI_Send");
  return MPI_Wait(&q, nullptr);
}
EXPORT int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c,
                    MPI_Status *st) {
  MPI_Request q = irecv(b, n, t, s, tag, c, "MPI_Recv");
  return MPI_Wait(&q, st);
}
EXPORT int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) {
  *n = s->bytes / tsz(t);
  return 0;
}
EXPORT int MPI_Type_size(MPI_Datatype t, int *n) {
  *n = tsz(t);
  return 0;
}
// ---- windows
static mc_win_s *WN(MPI_Win w) {
  for (auto &x : wins)
    if (x.get() == w) {
      if (w->freed[crank(w->comm)])
        mc_fail("mpi", "window used after MPI_Win_free");
      return w;
    }
  mc_fail("mpi", "invalid window handle");
}
static int walloc(const char *kind, MPI_Aint b, int du, MPI_Comm c, void *o,
                  MPI_Win *w) {
  if (b < 0)
    mc_fail("mpi", "%s with negative size", kind);
  Args a;
  a.iv = {(long)b, du};
  a.optr = (void **)o;
  auto k = enter(C(c), kind, std::move(a));
  *w = k->win;
  return 0;
}
EXPORT int MPI_Win_allocate(MPI_Aint b, int du, MPI_Info, MPI_Comm c, void *o,
                            MPI_Win *w) {
  return walloc("MPI_Win_allocate", b, du, c, o, w);
}
EXPORT int MPI_Win_allocate_shared(MPI_Aint b, int du, MPI_Info, MPI_Comm c,
                                   void *o, MPI_Win *w) {
  return walloc("MPI_Win_allocate_shared", b, du, c, o, w);
}
EXPORT int MPI_Win_shared_query(MPI_Win w, int r, MPI_Aint *sz, int *du,
                                void *o) {
  mc_win_s *W = WN(w);
  if (!W->shared)
    mc_fail("mpi", "MPI_Win_shared_query on a non-shared window");
  if (r < 0 || r >= (int)W->base.size())
    mc_fail("mpi", "MPI_Win_shared_query: invalid rank");
  *sz = W->size[r];
  *du = W->du[r];
  *(void **)o = W->base[r];
  return 0;
}
EXPORT int MPI_Win_lock(int type, int r, int, MPI_Win w) {
  mc_win_s *W = WN(w);
  int me = crank(W->comm);
  if (W->lock[me].count(r))
    mc_fail("mpi", "MPI_Win_lock of a target already locked");
  struct X {
    mc_win_s *W;
    int r, type;
  } x{W, r, type};
  mc_block(
      [](void *p) -> int {
        X *x = (X *)p;
        for (auto &l : x->W->lock)
          if (l.count(x->r) &&
              (l[x->r] == MPI_LOCK_EXCLUSIVE || x->type == MPI_LOCK_EXCLUSIVE))
            return 0;
        return 1;
      },
      &x, "MPI_Win_lock");
  W->lock[me][r] = type;
  return 0;
}
static void win_complete(mc_win_s *W, int me) {
  for (uint32_t p : W->pending[me])
    mc_pending_end(p);
  W->pending[me].clear();
}
EXPORT int MPI_Win_unlock(int r, MPI_Win w) {
  mc_win_s *W = WN(w);
  int me = crank(W->comm);
  if (!W->lock[me].erase(r))
    mc_fail("mpi", "MPI_Win_unlock without lock");
  win_complete(W, me);
  return 0;
}
EXPORT int MPI_Win_lock_all(int, MPI_Win w) {
  mc_win_s *W = WN(w);
  for (size_t i = 0; i < W->base.size(); i++)
    W->lock[crank(W->comm)][i] = MPI_LOCK_SHARED;
  return 0;
}
EXPORT int MPI_Win_unlock_all(MPI_Win w) {
  mc_win_s *W = WN(w);
  W->lock[crank(W->comm)].clear();
  win_complete(W, crank(W->comm));
  return 0;
}
EXPORT int MPI_Win_flush(int, MPI_Win w) {
  mc_win_s *W = WN(w);
  win_complete(W, crank(W->comm));
  return 0;
}
EXPORT int MPI_Win_fence(int, MPI_Win w) {
  mc_win_s *W = WN(w);
  enter(W->comm, "MPI_Win_fence", Args{});
  W->fence[crank(W->comm)]++;
  win_complete(W, crank(W->comm));
  return 0;
}
EXPORT int MPI_Win_free(MPI_Win *w) {
  mc_win_s *W = WN(*w);
  int me = crank(W->comm);
  if (!W->lock[me].empty())
    mc_fail("mpi", "MPI_Win_free while a lock is held");
  enter(W->comm, "MPI_Win_free", Args{});
  W->freed[me] = 1;
  if (!W->shared || me == 0) {
    char *p = W->base[me];
    if (p)
      mc_free(p);
  }
  *w = MPI_WIN_NULL;
  return 0;
}
extern void mc_win_access(uintptr_t a, size_t n, bool w, bool atomic);
EXPORT int MPI_Get_accumulate(const void *o, int on, MPI_Datatype ot, void *res,
                              int rn, MPI_Datatype rt, int t, MPI_Aint d,
                              int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w) {
  mc_win_s *W = WN(w);
  int me = crank(W->comm);
  if (t < 0 || t >= (int)W->base.size())
    mc_fail("mpi", "MPI_Get_accumulate: invalid target %d", t);
  if (!W->lock[me].count(t) && !W->fence[me])
    mc_fail("mpi", "RMA operation outside an access epoch");
  size_t b = tsz(tt) * tn;
  size_t off = d * W->du[t];
  if (d < 0 || off + b > W->size[t])
    mc_fail("mpi",
            "MPI_Get_accumulate outside the target window (offset %zu, window "
            "%zu bytes)",
            off, W->size[t]);
  if (op != MPI_NO_OP)
    use(o, tsz(ot) * on, 0, "MPI_Get_accumulate");
  mc_rank_point(((uint64_t)W->id << 40) | ((uint64_t)t << 32) | off,
                "MPI_Get_accumulate");
  char *p = W->base[t] + off;
  mc_win_access((uintptr_t)p, b, op != MPI_NO_OP, true);
  if (res && rn) {
    uint32_t q = mc_pending_begin(res, tsz(rt) * rn, 1, "MPI_Get_accumulate");
    W->pending[me].push_back(q);
    memcpy(res, p, tsz(rt) * rn);
  }
  apply(op, tt, p, o, tn);
  return 0;
}
EXPORT int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype t, int tr,
                            MPI_Aint d, MPI_Op op, MPI_Win w) {
  return MPI_Get_accumulate(o, 1, t, r, 1, t, tr, d, 1, t, op, w);
}
EXPORT int MPI_Accumulate(const void *o, int on, MPI_Datatype ot, int t,
                          MPI_Aint d, int tn, MPI_Datatype tt, MPI_Op op,
                          MPI_Win w) {
  return MPI_Get_accumulate(o, on, ot, nullptr, 0, ot, t, d, tn, tt, op, w);
}
// ---- topologies
EXPORT int MPI_Dist_graph_create(MPI_Comm c, int n, const int *src,
                                 const int *deg, const int *dst, const int *,
                                 MPI_Info, int, MPI_Comm *o) {
  Args a;
  a.a.assign(src, src + n);
  a.b.assign(deg, deg + n);
  int t = 0;
  for (int i = 0; i < n; i++)
    t += deg[i];
  a.c.assign(dst, dst + t);
  mc_comm_s *p = C(c);
  auto k = enter(p, "MPI_Dist_graph_create", std::move(a));
  *o = k->newc[crank(p)];
  return 0;
}
EXPORT int MPI_Dist_graph_create_adjacent(MPI_Comm c, int ni, const int *in,
                                          const int *, int no, const int *out,
                                          const int *, MPI_Info, int,
                                          MPI_Comm *o) {
  Args a;
  a.a.assign(in, in + ni);
  a.b.assign(out, out + no);
  mc_comm_s *p = C(c);
  auto k = enter(p, "MPI_Dist_graph_create_adjacent", std::move(a));
  *o = k->newc[crank(p)];
  return 0;
}
EXPORT int MPI_Dist_graph_neighbors_count(MPI_Comm c, int *i, int *o, int *w) {
  mc_comm_s *p = C(c);
  if (p->topo != MPI_DIST_GRAPH)
    mc_fail("mpi", "not a distributed graph communicator");
  int me = crank(p);
  *i = p->in[me].size();
  *o = p->out[me].size();
  *w = 0;
  return 0;
}
EXPORT int MPI_Dist_graph_neighbors(MPI_Comm c, int mi, int *in, int *, int mo,
                                    int *out, int *) {
  mc_comm_s *p = C(c);
  if (p->topo != MPI_DIST_GRAPH)
    mc_fail("mpi", "not a distributed graph communicator");
  int me = crank(p);
  for (int i = 0; i < mi && i < (int)p->in[me].size(); i++)
    in[i] = p->in[me][i];
  for (int i = 0; i < mo && i < (int)p->out[me].size(); i++)
    out[i] = p->out[me][i];
  return 0;
}
EXPORT int MPI_Topo_test(MPI_Comm c, int *s) {
  *s = C(c)->topo;
  return 0;
}
EXPORT int MPI_Neighbor_alltoall(const void *s, int sn, MPI_Datatype st,
                                 void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
  mc_comm_s *p = C(c);
  if (p->topo != MPI_DIST_GRAPH)
    mc_fail("mpi", "neighbourhood collective without a graph topology");
  int me = crank(p);
  Args a;
  a.s = s;
  a.sn = sn;
  a.st = st;
  a.r = r;
  a.rn = rn;
  a.rt = rt;
  use(s, tsz(st) * sn * p->out[me].size(), 0, "MPI_Neighbor_alltoall");
  use(r, tsz(rt) * rn * p->in[me].size(), 1, "MPI_Neighbor_alltoall");
  enter(p, "MPI_Neighbor_alltoall", std::move(a));
  return 0;
}
EXPORT int MPI_Neighbor_alltoallw(const void *s, const int *sc,
                                  const MPI_Aint *sd, const MPI_Datatype *sts,
                                  void *r, const int *rc, const MPI_Aint *rd,
                                  const MPI_Datatype *rts, MPI_Comm c) {
  mc_comm_s *p = C(c);
  if (p->topo != MPI_DIST_GRAPH)
    mc_fail("mpi", "neighbourhood collective without a graph topology");
  int me = crank(p);
  Args a;
  a.s = s;
  a.scnt = sc;
  a.sd = sd;
  a.sts = sts;
  a.r = r;
  a.cnt = rc;
  a.rd = rd;
  a.rts = rts;
  for (size_t i = 0; i < p->out[me].size(); i++)
    use((const char *)s + sd[i], tsz(sts[i]) * sc[i], 0,
        "MPI_Neighbor_alltoallw");
  for (size_t i = 0; i < p->in[me].size(); i++)
    use((char *)r + rd[i], tsz(rts[i]) * rc[i], 1, "MPI_Neighbor_alltoallw");
  enter(p, "MPI_Neighbor_alltoallw", std::move(a));
  return 0;
}
EXPORT int MPI_Cart_create(MPI_Comm c, int nd, const int *dims, const int *per,
                           int, MPI_Comm *o) {
  Args a;
  a.a.assign(dims, dims + nd);
  a.b.assign(per, per + nd);
  mc_comm_s *p = C(c);
  auto k = enter(p, "MPI_Cart_create", std::move(a));
  *o = k->newc[crank(p)];
  return 0;
}
static mc_comm_s *cart(MPI_Comm c) {
  mc_comm_s *p = C(c);
  if (p->topo != MPI_CART)
    mc_fail("mpi", "not a Cartesian communicator");
  return p;
}
EXPORT int MPI_Cart_coords(MPI_Comm c, int r, int n, int *co) {
  mc_comm_s *p = cart(c);
  for (int d = (int)p->dims.size() - 1; d >= 0; d--) {
    if (d < n)
      co[d] = r % p->dims[d];
    r /= p->dims[d];
  }
  return 0;
}
EXPORT int MPI_Cart_get(MPI_Comm c, int n, int *dims, int *per, int *co) {
  mc_comm_s *p = cart(c);
  for (int i = 0; i < n; i++) {
    dims[i] = p->dims[i];
    per[i] = p->periods[i];
  }
  return MPI_Cart_coords(c, crank(p), n, co);
}
EXPORT int MPI_Cart_rank(MPI_Comm c, const int *co, int *r) {
  mc_comm_s *p = cart(c);
  int x = 0;
  for (size_t d = 0; d < p->dims.size(); d++) {
    int v = co[d];
    if (p->periods[d])
      v = ((v % p->dims[d]) + p->dims[d]) % p->dims[d];
    else if (v < 0 || v >= p->dims[d])
      mc_fail("mpi", "MPI_Cart_rank: coordinate %d out of range", v);
    x = x * p->dims[d] + v;
  }
  *r = x;
  return 0;
}
EXPORT int MPI_Dims_create(int n, int nd, int *dims) {
  int fixed = 1, freec = 0;
  for (int i = 0; i < nd; i++)
    if (dims[i])
      fixed *= dims[i];
    else
      freec++;
  if (n % fixed)
    mc_fail("mpi", "MPI_Dims_create: constraint does not divide");
  if (!freec)
    return 0;
  int left = n / fixed;
  // most balanced: enumerate factorisations, minimise the maximum, then spread
  std::vector<int> best, cur;
  struct Rec {
    static void go(int left, int k, int maxv, std::vector<int> &cur,
                   std::vector<int> &best) {
      if (k == 1) {
        if (left > maxv)
          return;
        cur.push_back(left);
        if (best.empty() || cur < best)
          best = cur;
        cur.pop_back();
        return;
      }
      for (int f = 1; f <= left && f <= maxv; f++)
        if (left % f == 0) {
          cur.push_back(f);
          go(left / f, k - 1, f, cur, best);
          cur.pop_back();
        }
    }
  };
  Rec::go(left, freec, left, cur, best);
  int j = 0;
  for (int i = 0; i < nd; i++)
    if (!dims[i])
      dims[i] = best[j++];
  return 0;
}
EXPORT int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int *s, int *d) {
  mc_comm_s *p = cart(c);
  std::vector<int> co(p->dims.size());
  MPI_Cart_coords(c, crank(p), co.size(), co.data());
  auto get = [&](int v) {
    auto x = co;
    x[dir] += v;
    if (!p->periods[dir] && (x[dir] < 0 || x[dir] >= p->dims[dir]))
      return MPI_PROC_NULL;
    int r;
    MPI_Cart_rank(c, x.data(), &r);
    return r;
  };
  *s = get(-disp);
  *d = get(disp);
  return 0;
}
EXPORT int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t,
                          MPI_Op op, MPI_Comm c, MPI_Request *q) {
  MPI_Allreduce(s, r, n, t, op, c);
  mc_req_s *x = new_req(2);
  x->coll = std::make_shared<Coll>();
  x->coll->done = true;
  *q = x;
  return 0;
}
