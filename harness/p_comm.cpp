// Collective building blocks: edge counter, vector gathers, set reductions,
// graph communicators, data distributed over mesh hierarchy cells.
#include "ranks.hpp"
using namespace H;
extern "C" void mc_set_ranks_per_node(int n);

// ---- CommunicationEdgesCounter -------------------------------------------
static void edges(int nr, int mode, int bound) {
  // adjacency (from,to), self edges included
  std::vector<std::vector<int>> e(nr, std::vector<int>(nr, 0));
  if (mode == 0) {
    for (auto &r : e)
      for (auto &x : r)
        x = mc::choose(2, "edge");
  } else { // each rank picks one of a few target sets
    for (int r = 0; r < nr; r++) {
      const int k = mc::choose(mc_tier || nr < 4 ? 4 : 3, "targets");
      for (int t = 0; t < nr; t++)
        e[r][t] = k == 0   ? 0
                  : k == 1 ? t == (r + 1) % nr
                  : k == 2 ? t != r
                           : 1;
    }
  }
  const int rev = nr < 3 ? mc::choose(2, "target_order") : 1;
  if (bound)
    mc_set_sched_bound(bound);
  else {
    mc_set_rank_order(mc::choose(2, "rank_order"));
  }
  auto len = [](int a, int b, int round) {
    return (std::int64_t)((a * 3 + b + round) % 3) * 4;
  };
  mc::ranks(nr, [&](int rank) {
    CommunicationEdgesCounter ece(MPI_COMM_WORLD);
    for (int round = 0; round < (bound || nr > 2 ? 1 : 2); round++) {
      std::vector<int> to;
      for (int t = 0; t < nr; t++)
        if (e[rank][t])
          to.push_back(t);
      if (rev)
        std::reverse(to.begin(), to.end());
      std::vector<std::int64_t> n, m;
      std::vector<int> from{55};
      for (int t : to)
        n.push_back(len(rank, t, round));
      ece.get_remote_ranks(to, n, from, m);
      std::set<int> want, got(from.begin(), from.end());
      for (int s = 0; s < nr; s++)
        if (e[s][rank])
          want.insert(s);
      MC_CHECK(got == want && from.size() == want.size(), "rank ", rank,
               " sees ", from.size(), " senders, expected ", want.size());
      MC_CHECK(m.size() == from.size(), "integer per sender");
      for (size_t k = 0; k < from.size(); k++)
        MC_CHECK(m[k] == len(from[k], rank, round), "integer from rank ",
                 from[k], " is ", m[k]);
      std::vector<std::vector<char>> out, in;
      std::vector<void *> po, pi;
      for (size_t k = 0; k < to.size(); k++) {
        out.emplace_back(n[k] + 1);
        for (auto &c : out.back())
          c = (char)(rank * 16 + to[k] + 3 * round + (&c - out.back().data()));
      }
      for (size_t k = 0; k < from.size(); k++)
        in.emplace_back(m[k] + 1, (char)-1);
      for (auto &x : out)
        po.push_back(x.data());
      for (auto &x : in)
        pi.push_back(x.data());
      ece.exchange_send_recv_data(to, n, po, from, m, pi);
      for (size_t k = 0; k < from.size(); k++) {
        for (int b = 0; b < m[k]; b++)
          MC_CHECK(in[k][b] == (char)(from[k] * 16 + rank + 3 * round + b),
                   "byte ", b, " from rank ", from[k]);
        MC_CHECK(in[k][m[k]] == (char)-1, "wrote past the received data");
      }
      // reply along the reversed edges, in known order
      std::vector<std::int64_t> r1, r2(to.size(), -4);
      for (int f : from)
        r1.push_back(100 * rank + f + round);
      auto f2 = from, t2 = to;
      ece.exchange_send_recv_counts(f2, r1, t2, r2, true);
      MC_CHECK(t2 == to, "ordered exchange changed the ranks");
      for (size_t k = 0; k < to.size(); k++)
        MC_CHECK(r2[k] == 100 * to[k] + rank + round, "reply from rank ",
                 to[k], " is ", r2[k]);
      if (!from.empty())
        mc::nontrivial();
    }
    MPI_Barrier(MPI_COMM_WORLD);
    ece.free();
  });
  uint64_t h = 0;
  for (auto &r : e)
    for (int x : r)
      h = h * 2 + x;
  mc::outcome(h);
}
static void edges2() { edges(2, 0, 0); }
static void edges3() { edges(3, 0, 0); }
static void edges4() { edges(4, 1, 0); }
static void edges2s() { edges(2, 0, mc_tier ? 2 : 1); }
static void edges3s() { edges(3, 1, 1); }

// ---- gathers and sets ------------------------------------------------------
template <typename T> static void gathers() {
  const int nr = 1 + mc::choose(4, "ranks");
  std::vector<int> n(nr);
  for (auto &x : n)
    x = mc::choose(3, "length");
  const int root = mc::choose(nr, "root");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  std::vector<T> want;
  auto val = [](int r, int k) { return (T)(r * 1000 + k * 7 + 1); };
  for (int r = 0; r < nr; r++)
    for (int k = 0; k < n[r]; k++)
      want.push_back(val(r, k));
  mc::ranks(nr, [&](int rank) {
    std::vector<T> in, out(3, (T)-1), all(1, (T)-1);
    for (int k = 0; k < n[rank]; k++)
      in.push_back(val(rank, k));
    gather_v(in, MPI_COMM_WORLD, root, out);
    all_gather_v(in, MPI_COMM_WORLD, all);
    MC_CHECK(all == want, "all_gather_v on rank ", rank);
    if (rank == root)
      MC_CHECK(out == want, "gather_v on the root rank");
    else
      MC_CHECK(out.empty(), "gather_v leaves data on rank ", rank);
    if (want.size())
      mc::nontrivial();
  });
  mc::outcome(want.size() * 16 + root);
}
static void gather_real() { gathers<REAL>(); }
static void gather_int() { gathers<INT>(); }
static void gather_int32() { gathers<int>(); }

template <typename T> static void sets(int nr, bool sync) {
  std::vector<std::set<T>> in(nr), red(nr), all(nr), bc(nr), p2p(nr);
  // two element universe, the values exceed 32 bits where the type allows
  const T A = sizeof(T) == 8 ? (T)((INT)1 << 40) + 3 : (T)-3;
  const T B = (T)5;
  std::set<T> want;
  for (auto &s : in) {
    const int k = mc::choose(nr > 4 ? 3 : 4, "set");
    if (k == 1 || k == 3)
      s.insert(A);
    if (k >= 2)
      s.insert(B);
    want.insert(s.begin(), s.end());
  }
  const int root = mc::choose(nr, "root");
  mc_set_send_mode(sync);
  mc_set_rank_order(mc::choose(2, "rank_order"));
  mc::ranks(nr, [&](int rank) {
    auto mine = in[rank];
    auto r = set_reduce_union(mine, root, MPI_COMM_WORLD);
    auto a = set_all_reduce_union(mine, MPI_COMM_WORLD);
    auto b = set_bcast(mine, root, MPI_COMM_WORLD);
    std::set<T> p;
    // ring exchange, even ranks send first
    if (nr > 1) {
      const int next = (rank + 1) % nr, prev = (rank + nr - 1) % nr;
      if (rank == 0) {
        set_send(mine, next, 9, MPI_COMM_WORLD);
        p = set_recv<T>(prev, 9, MPI_COMM_WORLD);
      } else {
        p = set_recv<T>(prev, 9, MPI_COMM_WORLD);
        set_send(mine, next, 9, MPI_COMM_WORLD);
      }
      MC_CHECK(p == in[prev], "set received from rank ", prev);
    }
    MC_CHECK(mine == in[rank], "input set changed");
    MC_CHECK(a == want, "set_all_reduce_union on rank ", rank);
    MC_CHECK(b == in[root], "set_bcast on rank ", rank);
    if (rank == root)
      MC_CHECK(r == want, "set_reduce_union on the root rank");
    else
      MC_CHECK(r.empty(), "set_reduce_union on rank ", rank);
  });
  if (want.size())
    mc::nontrivial();
  mc::outcome(want.size() * 100 + root);
}
static void sets_int32() {
  const int nr = 1 + mc::choose(6, "ranks");
  sets<int>(nr, true);
}
static void sets_int64() {
  const int nr = 1 + mc::choose(4, "ranks");
  sets<INT>(nr, true);
}

// ---- graph communicators ---------------------------------------------------
static void graphs(int nr, int mult) {
  // number of parallel edges from a to b
  std::vector<std::vector<int>> e(nr, std::vector<int>(nr, 0));
  for (auto &r : e)
    for (auto &x : r)
      x = mc::choose(mult + 1, "edges");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  // the wrapper of this build or the point to point implementation
  const bool p2p = mc::choose(2, "implementation");
  mc_set_send_mode(p2p ? mc::choose(2, "send") : 0);
  mc::ranks(nr, [&](int rank) {
    std::vector<int> src, dst;
    for (int s = 0; s < nr; s++)
      for (int k = 0; k < e[s][rank]; k++)
        src.push_back(s);
    for (int d = 0; d < nr; d++)
      for (int k = 0; k < e[rank][d]; k++)
        dst.push_back(d);
    std::vector<int> ws(src.size() + 1, 1), wd(dst.size() + 1, 1);
    MPI_Comm g, rg;
    MPI_Dist_graph_create_adjacent(MPI_COMM_WORLD, src.size(), src.data(),
                                   ws.data(), dst.size(), dst.data(), wd.data(),
                                   MPI_INFO_NULL, 0, &g);
    MC_CHECK(reverse_graph_edge_directions(MPI_COMM_WORLD, g, &rg) ==
                 MPI_SUCCESS,
             "reverse_graph_edge_directions");
    // message from rank along its k-th edge: counts and displacements vary
    std::vector<INT> sb, rb(src.size() * 2 + 2, -9);
    for (size_t k = 0; k < dst.size(); k++) {
      sb.push_back(1000 * rank + 10 * dst[k]);
      sb.push_back(1000 * rank + 10 * dst[k] + 1 + k);
    }
    sb.push_back(-1);
    (p2p ? NP_MPI_Neighbor_alltoall
         : NP_MPI_Neighbor_alltoall_wrapper)(sb.data(), 2, MPI_INT64_T, rb.data(), 2,
                                     MPI_INT64_T, g);
    auto kth = [&](int s, int r, int j) { // position of j-th s->r edge at s
      int k = 0;
      for (int d = 0; d < r; d++)
        k += e[s][d];
      return k + j;
    };
    std::map<int, int> nth;
    for (size_t k = 0; k < src.size(); k++) {
      const int s = src[k], j = nth[s]++;
      MC_CHECK(rb[2 * k] == 1000 * s + 10 * rank, "alltoall data from rank ", s);
      MC_CHECK(rb[2 * k + 1] == 1000 * s + 10 * rank + 1 + kth(s, rank, j),
               "alltoall data of edge ", j, " from rank ", s);
    }
    MC_CHECK(rb[2 * src.size()] == -9, "alltoall wrote too much");
    // variable length, with displacements; edge k of rank s carries k+s mod 3
    std::vector<int> sc, rc;
    std::vector<MPI_Aint> sd, rd;
    std::vector<MPI_Datatype> st(dst.size() + 1, MPI_INT64_T),
        rt(src.size() + 1, MPI_INT64_T);
    std::vector<INT> s2, r2;
    for (size_t k = 0; k < dst.size(); k++) {
      const int c = (int)(k + rank) % 3;
      sc.push_back(c);
      sd.push_back(s2.size() * sizeof(INT));
      for (int q = 0; q < c; q++)
        s2.push_back(100 * rank + 10 * k + q);
      s2.push_back(-3);
    }
    nth.clear();
    for (size_t k = 0; k < src.size(); k++) {
      const int s = src[k], kk = kth(s, rank, nth[s]++);
      const int c = (kk + s) % 3;
      rc.push_back(c);
      rd.push_back(r2.size() * sizeof(INT));
      r2.resize(r2.size() + c + 1, -8);
    }
    s2.push_back(0);
    r2.push_back(-8);
    sc.push_back(0);
    rc.push_back(0);
    sd.push_back(0);
    rd.push_back(0);
    (p2p ? NP_MPI_Neighbor_alltoallw
         : NP_MPI_Neighbor_alltoallw_wrapper)(s2.data(), sc.data(), sd.data(),
                                      st.data(), r2.data(), rc.data(),
                                      rd.data(), rt.data(), g);
    nth.clear();
    for (size_t k = 0; k < src.size(); k++) {
      const int s = src[k], kk = kth(s, rank, nth[s]++);
      for (int q = 0; q < rc[k]; q++)
        MC_CHECK(r2[rd[k] / sizeof(INT) + q] == 100 * s + 10 * kk + q,
                 "alltoallw data from rank ", s);
      MC_CHECK(r2[rd[k] / sizeof(INT) + rc[k]] == -8,
               "alltoallw wrote too much");
    }
    // the reversed graph
    int in = -1, out = -1, w = -1;
    MPI_Dist_graph_neighbors_count(rg, &in, &out, &w);
    MC_CHECK(in == (int)dst.size() && out == (int)src.size(),
             "degrees of the reversed graph");
    std::vector<int> a(in + 1), aw(in + 1), b(out + 1), bw(out + 1);
    MPI_Dist_graph_neighbors(rg, in, a.data(), aw.data(), out, b.data(),
                             bw.data());
    a.resize(in);
    b.resize(out);
    MC_CHECK(a == dst && b == src, "neighbours in the reversed graph");
    if (in + out)
      mc::nontrivial();
    MPI_Comm_free(&g);
    MPI_Comm_free(&rg);
  });
  uint64_t h = 0;
  for (auto &r : e)
    for (int x : r)
      h = h * 3 + x;
  mc::outcome(h);
}
static void graphs2() { graphs(2, 2); }
static void graphs3() { graphs(3, 1); }

// ---- data on mesh hierarchy cells -------------------------------------------
struct Blob : public MeshHierarchyData::SerialInterface {
  std::vector<INT> v;
  std::size_t get_num_bytes() const override { return v.size() * sizeof(INT); }
  void serialise(std::byte *b, const std::size_t n) const override {
    MC_CHECK(n == get_num_bytes(), "serialise size");
    std::memcpy(b, v.data(), n);
  }
  void deserialise(const std::byte *b, const std::size_t n) override {
    v.resize(n / sizeof(INT));
    std::memcpy(v.data(), b, n);
  }
};
static void serial() {
  std::vector<std::vector<Blob>> parts(2);
  std::vector<std::vector<INT>> want;
  for (int p = 0; p < 2; p++) {
    const int n = mc::choose(4, "objects");
    for (int k = 0; k < n; k++) {
      Blob b;
      const int l = mc::choose(3, "length");
      for (int j = 0; j < l; j++)
        b.v.push_back(1000 * p + 10 * k + j);
      parts[p].push_back(b);
      want.push_back(b.v);
    }
  }
  MeshHierarchyData::SerialContainer<Blob> a(parts[0]), b(parts[1]), c;
  c.append(a);
  c.append(b);
  std::vector<Blob> out(2);
  c.get(out);
  MC_CHECK(out.size() == want.size(), out.size(), " objects of ", want.size());
  for (size_t k = 0; k < want.size(); k++)
    MC_CHECK(out[k].v == want[k], "object ", k);
  mc::outcome(want.size());
  mc::nontrivial();
}
static void celldata(int nr, int ncell, int bound) {
  // owner of each cell (nr = nobody), contributions per rank and cell:
  // none, an empty vector, one object, two objects
  std::vector<int> owner, data, ask;
  for (int c = 0; c < ncell; c++)
    owner.push_back(mc::choose(nr + 1, "owner"));
  for (int k = 0; k < nr * ncell; k++)
    data.push_back(mc::choose(bound ? 2 : 3, "objects"));
  for (int r = 0; r < nr; r++)
    ask.push_back((1 << mc::choose(ncell + 1, "first_gather")) - 1);
  if (bound)
    mc_set_sched_bound(bound);
  else if (mc_tier)
    mc_set_rank_order(mc::choose(2, "rank_order"));
  auto count = [&](int r, int c) {
    const int k = data[r * ncell + c];
    return bound ? (k ? 1 : -1) : k == 0 ? -1 : k == 1 ? (r + c) % 2 : 2;
  };
  auto val = [](int r, int c, int k) { return (INT)(1000 * r + 100 * c + k); };
  mc::ranks(nr, [&](int rank) {
    auto mh = std::make_shared<MeshHierarchy>(
        MPI_COMM_WORLD, 1, std::vector<int>{ncell}, std::vector<double>{0.0},
        1.0, 0);
    mh->claim_initialise();
    for (int c = 0; c < ncell; c++)
      if (owner[c] == rank)
        mh->claim_cell(c, 1);
    mh->claim_finalise();
    std::map<INT, std::vector<Blob>> in;
    for (int c = 0; c < ncell; c++) {
      const int n = count(rank, c);
      if (n < 0)
        continue;
      in[c];
      for (int k = 0; k < n; k++) {
        Blob b;
        for (int j = 0; j < (rank + k) % 3; j++)
          b.v.push_back(7 + j);
        b.v.push_back(val(rank, c, k));
        in[c].push_back(b);
      }
    }
    MeshHierarchyData::MeshHierarchyContainer<Blob> mhc(mh, in);
    auto check = [&](int c) {
      std::vector<Blob> out(1);
      mhc.get(c, out);
      std::multiset<std::vector<INT>> got, want;
      for (auto &b : out)
        got.insert(b.v);
      if (owner[c] < nr)
        for (int r = 0; r < nr; r++)
          for (int k = 0; k < count(r, c); k++) {
            std::vector<INT> v;
            for (int j = 0; j < (r + k) % 3; j++)
              v.push_back(7 + j);
            v.push_back(val(r, c, k));
            want.insert(v);
          }
      MC_CHECK(got == want, "rank ", rank, " gets ", got.size(),
               " objects for cell ", c, " expected ", want.size());
    };
    std::vector<INT> first, all;
    for (int c = 0; c < ncell; c++) {
      all.push_back(c);
      if ((ask[rank] >> c) & 1)
        first.push_back(c);
    }
    mhc.gather(first);
    for (INT c : first)
      check(c);
    mhc.gather(all); // cells already held must not be duplicated
    for (INT c : all)
      check(c);
    mhc.gather(all);
    for (INT c : all)
      check(c);
    mhc.free();
    MPI_Barrier(MPI_COMM_WORLD);
    mh->free();
  });
  mc::nontrivial();
  uint64_t h = 0;
  for (int x : data)
    h = h * 3 + x;
  mc::outcome(h);
}
static void celldata2() { celldata(2, 2, 0); }
static void celldata3() { celldata(3, 1, 0); }
static void celldata2s() { celldata(2, 1, 1); }

const mc_scenario mc_scenarios[] = {
    {"edges_2_ranks", edges2},     {"edges_3_ranks", edges3},
    {"edges_4_ranks", edges4},     {"edges_2_ranks_schedules", edges2s},
    {"edges_3_ranks_schedules", edges3s},
    {"gather_real", gather_real},  {"gather_int64", gather_int},
    {"gather_int32", gather_int32}, {"sets_int32", sets_int32},
    {"sets_int64", sets_int64},    {"graph_2_ranks", graphs2},
    {"graph_3_ranks", graphs3},    {"serial_container", serial},
    {"cell_data_2_ranks", celldata2}, {"cell_data_3_ranks", celldata3},
    {"cell_data_2_ranks_schedules", celldata2s}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
