// Pair lists hold exactly the pairs they were given, arranged in waves without
// conflicts, and a pair loop runs its kernel exactly once for each pair of the
// requested cells, wave after wave, with the data of the right two particles.
#include "model.hpp"
using namespace H;

typedef std::array<int, 3> Trip; // cell, i, j
typedef CellwisePairListAbsolute<ParticleGroup, CellwisePairList> AbsS;
typedef CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>
    AbsB;

// ---------------------------------------------------------------- host lists
// Reference: waves of a sequence of pushed pairs.
typedef std::map<int, std::vector<std::vector<std::pair<int, int>>>> Waves;
static Waves ref_waves(const std::vector<Trip> &seq) {
  Waves w;
  std::map<std::pair<int, int>, int> next;
  for (auto &t : seq) {
    auto &a = next[{t[0], t[1]}];
    auto &b = next[{t[0], t[2]}];
    const int v = std::max(a, b);
    a = b = v + 1;
    auto &c = w[t[0]];
    if ((int)c.size() <= v)
      c.resize(v + 1);
    c[v].push_back({std::min(t[1], t[2]), std::max(t[1], t[2])});
  }
  return w;
}
static void check_map(const CellwisePairListHostMap &m, const Waves &w,
                      int cells, const char *when) {
  for (int c = 0; c < cells; c++) {
    auto it = m.find(c);
    const size_t nw = it == m.end() ? 0 : it->second.size();
    const size_t want = w.count(c) ? w.at(c).size() : 0;
    MC_CHECK(nw == want, when, " number of waves in cell ", c, ": ", nw,
             " expected ", want);
    for (size_t v = 0; v < want; v++) {
      MC_CHECK(it->second.count((int)v), when, " wave ", v, " missing");
      auto &p = it->second.at((int)v);
      MC_CHECK(p.first.size() == p.second.size(), when, " pair vectors");
      std::multiset<std::pair<int, int>> got,
          exp(w.at(c)[v].begin(), w.at(c)[v].end());
      std::set<int> used;
      for (size_t k = 0; k < p.first.size(); k++) {
        got.insert({std::min(p.first[k], p.second[k]),
                    std::max(p.first[k], p.second[k])});
        MC_CHECK(used.insert(p.first[k]).second &&
                     used.insert(p.second[k]).second,
                 when, " a particle appears twice in wave ", v, " of cell ", c);
      }
      MC_CHECK(got == exp, when, " pairs of wave ", v, " cell ", c);
    }
  }
  for (auto &x : m)
    MC_CHECK(x.first >= 0 && x.first < cells, when, " cell ", x.first);
}

static void host_list() {
  const int depth = mc_tier ? 4 : 3, np = 4, nc = 2;
  std::vector<std::pair<int, int>> pairs;
  for (int i = 0; i < np; i++)
    for (int j = 0; j < np; j++)
      if (i != j)
        pairs.push_back({i, j});
  CellwisePairListHost l(nc);
  std::vector<Trip> seq;
  for (int round = 0; round < 2; round++) {
    const int d = round ? 1 : depth;
    for (int k = 0; k < d; k++) {
      const int x = mc::choose((int)pairs.size() * (round ? 1 : nc), "push");
      const Trip t{x / (int)pairs.size(), pairs[x % pairs.size()].first,
                   pairs[x % pairs.size()].second};
      l.push_back(t[0], t[1], t[2]);
      seq.push_back(t);
      check_map(l.get(), ref_waves(seq), nc, "host list");
      std::map<std::pair<int, int>, int> next;
      for (auto &s : seq) {
        const int v = std::max(next[{s[0], s[1]}], next[{s[0], s[2]}]) + 1;
        next[{s[0], s[1]}] = next[{s[0], s[2]}] = v;
      }
      for (int c = 0; c < nc; c++)
        for (int i = 0; i < np; i++)
          MC_CHECK(l.get_next_wave(c, i) ==
                       (next.count({c, i}) ? next[{c, i}] : 0),
                   "next wave of ", c, ",", i);
    }
    l.clear();
    seq.clear();
    for (auto &x : l.get())
      MC_CHECK(x.second.empty(), "pairs after clear");
    for (int c = 0; c < nc; c++)
      for (int i = 0; i < np; i++)
        MC_CHECK(l.get_next_wave(c, i) == 0, "next wave after clear");
  }
  mc::nontrivial();
}

// --------------------------------------------------------- the device list
// Everything the device description promises, against per cell waves of
// ordered pairs.
typedef std::map<int, std::vector<std::vector<std::pair<int, int>>>> OWaves;
static void check_device(World &w, CellwisePairList &l, const OWaves &want,
                         int nc, const char *when) {
  auto d = l.get_pair_list();
  INT total = 0;
  for (auto &c : want)
    for (auto &v : c.second)
      total += (INT)v.size();
  MC_CHECK(d.cell_count == nc, when, " cell count");
  MC_CHECK(d.pair_count == total, when, " pair count ", d.pair_count,
           " expected ", total);
  if (nc == 0)
    return;
  std::vector<int> wc(nc);
  w.target->queue.memcpy(wc.data(), d.d_wave_count, nc * sizeof(int))
      .wait_and_throw();
  // Read the description through its own accessors on the device.
  struct Rec {
    int cell, wave, k, i, j;
    INT lin;
  };
  const int cap = (int)total + 8;
  auto *pn = sycl::malloc_device<int>(1, w.target->queue);
  auto *pr = sycl::malloc_device<Rec>(cap, w.target->queue);
  w.target->queue.fill(pn, 0, 1).wait_and_throw();
  w.target->queue
      .submit([&](sycl::handler &cgh) {
        cgh.single_task([=]() {
          for (int c = 0; c < d.cell_count; c++)
            for (int v = 0; v < d.get_num_waves(c); v++)
              for (int k = 0; k < d.get_num_pairs(v, c); k++) {
                if (*pn < cap)
                  pr[*pn] = {c,
                             v,
                             k,
                             d.get_particle_index_i(v, c, k),
                             d.get_particle_index_j(v, c, k),
                             (INT)d.get_pair_linear_index(v, c, k)};
                (*pn)++;
              }
        });
      })
      .wait_and_throw();
  int n = 0;
  std::vector<Rec> recs(cap);
  w.target->queue.memcpy(&n, pn, sizeof(int)).wait_and_throw();
  w.target->queue.memcpy(recs.data(), pr, std::min(n, cap) * sizeof(Rec))
      .wait_and_throw();
  sycl::free(pn, w.target->queue);
  sycl::free(pr, w.target->queue);
  MC_CHECK(n == total, when, " pairs on the device: ", n, " expected ", total);
  std::set<INT> lin;
  for (int k = 0; k < n; k++) {
    auto &r = recs[k];
    MC_CHECK(want.count(r.cell) && r.wave < (int)want.at(r.cell).size() &&
                 r.k < (int)want.at(r.cell)[r.wave].size(),
             when, " unexpected pair in cell ", r.cell, " wave ", r.wave);
    auto &p = want.at(r.cell)[r.wave][r.k];
    MC_CHECK(p.first == r.i && p.second == r.j, when, " pair ", r.k, " of cell ",
             r.cell, " wave ", r.wave, ": ", r.i, ",", r.j, " expected ",
             p.first, ",", p.second);
    MC_CHECK(r.lin >= 0 && r.lin < total && lin.insert(r.lin).second, when,
             " linear index ", r.lin, " of cell ", r.cell, " wave ", r.wave,
             " pair ", r.k);
  }
  for (int c = 0; c < nc; c++) {
    MC_CHECK(d.h_wave_count[c] == wc[c], when, " host wave count");
    for (int v = 0; v < wc[c]; v++)
      MC_CHECK(d.get_num_pairs_host(v, c) ==
                   (want.count(c) && v < (int)want.at(c).size()
                        ? (int)want.at(c)[v].size()
                        : 0),
               when, " host pair count");
  }
  // host description
  auto h = l.get_host_pair_list();
  for (int c = 0; c < nc; c++) {
    std::vector<std::vector<std::pair<int, int>>> got;
    if (h.count(c))
      for (auto &x : h.at(c)) {
        if (x.second.first.empty())
          continue;
        got.resize(x.first + 1);
        for (size_t k = 0; k < x.second.first.size(); k++)
          got[x.first].push_back({x.second.first[k], x.second.second.at(k)});
      }
    auto exp = want.count(c) ? want.at(c)
                             : std::vector<std::vector<std::pair<int, int>>>{};
    while (exp.size() && exp.back().empty())
      exp.pop_back();
    MC_CHECK(got == exp, when, " host description of cell ", c);
  }
}

static ParticleSpec pair_spec() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<REAL>("V"), 2),
                      ParticleProp(Sym<INT>("A"), 1),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("N"), 1),
                      ParticleProp(Sym<INT>("X"), 1),
                      ParticleProp(Sym<INT>("Y"), 2)};
}
// order sensitive update of two accumulators
static inline INT up(INT a, INT b, INT id) {
  return (a * 7 + b * 3 + id + 1) % 1000003;
}

// Model of the particles as rows [cell][layer].
struct Rows {
  std::map<int, std::vector<INT>> n, x, y, id;
};
static Rows rows(TG &g) {
  Rows r;
  for (auto &p : snapshot(g)) {
    r.n[p.cell].push_back(p.i["N"][0]);
    r.x[p.cell].push_back(p.i["X"][0]);
    r.y[p.cell].push_back(p.i["Y"][1]);
    r.id[p.cell].push_back(p.i["ID"][0]);
  }
  return r;
}
static void check_rows(Rows got, Rows want, const char *when) {
  for (auto &c : want.n)
    for (size_t l = 0; l < c.second.size(); l++) {
      MC_CHECK(got.n[c.first].at(l) == c.second[l], when, ": particle ", l,
               " of cell ", c.first, " took part in ", got.n[c.first].at(l),
               " pairs, expected ", c.second[l]);
      MC_CHECK(got.x[c.first].at(l) == want.x[c.first].at(l), when,
               ": value of particle ", l, " of cell ", c.first,
               " is not that of executing the waves in order");
      MC_CHECK(got.y[c.first].at(l) == want.y[c.first].at(l), when,
               ": role of particle ", l, " of cell ", c.first);
    }
}
// Apply one pair of the reference model.
static void apply(Rows &a, Rows &b, int c, int i, int j) {
  const INT xi = a.x[c].at(i), xj = b.x[c].at(j);
  const INT ia = a.id[c].at(i), ib = b.id[c].at(j);
  a.n[c][i]++;
  b.n[c][j]++;
  a.x[c][i] = up(xi, xj, ib);
  b.x[c][j] = up(xj, xi, ia);
  a.y[c][i] += 1;
  b.y[c][j] += 1000;
}

template <typename L> static ParticlePairLoopBaseSharedPtr
make_loop(std::vector<L> lists, LocalArray<INT> mask, int variant, TGP a,
          TGP b) {
  auto k = [=](auto IX, auto IA, auto IB, auto NA, auto NB, auto XA, auto XB,
               auto YA, auto YB, auto M) {
    const INT ia = IA.at(0), ib = IB.at(0);
    const INT xa = XA.at(0), xb = XB.at(0);
    NA.at(0)++;
    NB.at(0)++;
    XA.at(0) = up(xa, xb, ib);
    XB.at(0) = up(xb, xa, ia);
    YA.at(1) += 1;
    YB.at(1) += 1000;
    M.fetch_add((int)IX.get_loop_linear_index(), 1);
  };
  if (variant == 0)
    return particle_pair_loop(
        "pl", lists, k, Access::read(ParticlePairLoopIndex{}),
        Access::A(Access::read(Sym<INT>("ID"))),
        Access::B(Access::read(Sym<INT>("ID"))),
        Access::A(Access::write(Sym<INT>("N"))),
        Access::B(Access::write(Sym<INT>("N"))),
        Access::A(Access::write(Sym<INT>("X"))),
        Access::B(Access::write(Sym<INT>("X"))),
        Access::A(Access::write(Sym<INT>("Y"))),
        Access::B(Access::write(Sym<INT>("Y"))), Access::add(mask));
  return particle_pair_loop(
      lists, k, Access::read(ParticlePairLoopIndex{}),
      Access::A(Access::read((*a)[Sym<INT>("ID")])),
      Access::B(Access::read((*b)[Sym<INT>("ID")])),
      Access::A(Access::write((*a)[Sym<INT>("N")])),
      Access::B(Access::write((*b)[Sym<INT>("N")])),
      Access::A(Access::write((*a)[Sym<INT>("X")])),
      Access::B(Access::write((*b)[Sym<INT>("X")])),
      Access::A(Access::write((*a)[Sym<INT>("Y")])),
      Access::B(Access::write((*b)[Sym<INT>("Y")])), Access::add(mask));
}

// Order the waves of all lists; lists are applied one after the other since
// their particles are disjoint.
static void model_loop(const std::vector<OWaves> &lists, Rows &a, Rows &b,
                       bool same, int s, int t) {
  for (auto &l : lists)
    for (auto &c : l)
      if (c.first >= s && c.first < t)
        for (auto &v : c.second)
          for (auto &p : v)
            apply(a, same ? a : b, c.first, p.first, p.second);
}
static void check_mask(LocalArray<INT> &mask, const std::vector<OWaves> &lists,
                       int s, int t, const char *when) {
  // Every pair of the executed cells has its own linear index in [0, total).
  INT total = 0, in = 0;
  for (auto &l : lists)
    for (auto &c : l)
      for (auto &v : c.second) {
        total += (INT)v.size();
        if (c.first >= s && c.first < t)
          in += (INT)v.size();
      }
  auto m = mask.get();
  INT seen = 0;
  for (size_t k = 0; k < m.size(); k++) {
    MC_CHECK(m[k] == 0 || ((INT)k < total && m[k] == 1), when,
             ": linear pair index ", k, " used ", m[k], " times, ", total,
             " pairs");
    seen += m[k];
  }
  MC_CHECK(seen == in, when, ": kernel executed ", seen, " times for ", in,
           " pairs");
  mask.fill(0);
}

// --------------------------------------- op sequences on the simple pair list
static std::vector<std::vector<Trip>> batches() {
  return {{{0, 2, 0}},
          {{0, 1, 3}, {1, 0, 1}},
          {{1, 2, 1}, {0, 4, 5}, {1, 0, 3}},
          {}};
}
static void simple_ops() {
  const int depth = mc_tier ? 5 : 4;
  const int variant = mc::choose(2, "gpu");
  mc_device()->is_gpu = variant;
  mc::ranks(1, [&](int) {
    World w({3, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    std::vector<Part> ref;
    auto g = make_group(w, {6, 4, 2}, ref, pair_spec(), 2);
    auto l = std::make_shared<CellwisePairListSimple>(w.target, 3);
    LocalArray<INT> mask(w.target, 40, 0);
    auto loop = make_loop<AbsS>({AbsS(pg(g), pg(g), l)}, mask, 0, g, g);
    Rows m = rows(*g);
    OWaves cur;
    int mode = 0; // 0 empty 1 pushed 2 set
    auto check = [&](const char *when) {
      check_device(w, *l, cur, 3, when);
      loop->execute();
      model_loop({cur}, m, m, true, 0, 3);
      check_rows(rows(*g), m, when);
      check_mask(mask, {cur}, 0, 3, when);
    };
    check("new list");
    for (int k = 0; k < depth; k++) {
      const int op = mc::choose(8, "op");
      if (op < 4) {
        if (mode == 2)
          mc_discard();
        auto b = batches()[op];
        // pairs of a pushed list are one wave: keep it free of conflicts
        std::set<std::pair<int, int>> used;
        for (auto &c : cur)
          for (auto &v : c.second)
            for (auto &p : v) {
              used.insert({c.first, p.first});
              used.insert({c.first, p.second});
            }
        std::vector<int> C, I, J;
        for (auto &t : b) {
          if (used.count({t[0], t[1]}) || used.count({t[0], t[2]}))
            mc_discard();
          used.insert({t[0], t[1]});
          used.insert({t[0], t[2]});
          C.push_back(t[0]);
          I.push_back(t[1]);
          J.push_back(t[2]);
          if (cur[t[0]].empty())
            cur[t[0]].resize(1);
          cur[t[0]][0].push_back({t[1], t[2]});
        }
        l->push_back(C, I, J);
        mode = 1;
        check("push_back");
      } else if (op == 4) {
        l->clear();
        cur.clear();
        mode = 0;
        check("clear");
      } else {
        auto h = std::make_shared<CellwisePairListHost>(3);
        std::vector<Trip> seq;
        if (op == 5)
          seq = {{0, 0, 1}, {0, 1, 2}, {2, 1, 0}, {0, 0, 2}, {0, 3, 4}};
        if (op == 6)
          seq = {{1, 3, 0}};
        for (auto &t : seq)
          h->push_back(t[0], t[1], t[2]);
        l->set(h);
        cur.clear();
        for (auto &c : ref_waves(seq))
          cur[c.first] = c.second;
        mode = 2;
        check("set");
      }
    }
    mc::nontrivial();
  });
}

// ------------------------------------------------- loops over pair lists
// A wave structure of cell 0 (5 particles), one list per entry.
static std::vector<std::vector<Trip>> shapes() {
  return {{},
          {{0, 0, 1}},
          {{0, 1, 0}, {0, 2, 3}},
          {{0, 0, 1}, {0, 1, 2}},
          {{0, 0, 1}, {0, 1, 2}, {0, 3, 4}, {0, 0, 2}},
          {{1, 0, 1}, {1, 2, 3}, {1, 4, 0}, {2, 0, 1}},
          {{0, 0, 4}, {2, 0, 1}, {2, 0, 1}, {1, 2, 1}}};
}
static void loops() {
  const int gpu = mc::choose(2, "gpu");
  const int two_groups = mc::choose(2, "two groups");
  const int local = 1 + mc::choose(3, "local size");
  const int variant = mc::choose(2, "arguments");
  const int s0 = mc::choose((int)shapes().size(), "shape");
  const int s1 = mc::choose((int)shapes().size() + 1, "second list");
  mc_device()->is_gpu = gpu;
  if (!mc_tier)
    mc_set_sched_bound(s1 == 0 ? 2 : 1);
  mc::ranks(1, [&](int) {
    World w({3, 1});
    set_param(w, "LOOP_LOCAL_SIZE", local);
    std::vector<Part> ra, rb;
    auto a = make_group(w, {10, 10, 4}, ra, pair_spec(), 2);
    auto b = two_groups ? make_group(w, {10, 10, 4}, rb, pair_spec(), 2, 100)
                        : a;
    LocalArray<INT> mask(w.target, 40, 0);
    std::vector<OWaves> ow;
    std::vector<CellwisePairListSimpleSharedPtr> ls;
    std::vector<AbsS> abs;
    auto add = [&](std::vector<Trip> t, int shift) {
      for (auto &x : t)
        for (int q : {1, 2})
          x[q] += x[0] == 2 ? shift / 5 * 2 : shift;
      auto h = std::make_shared<CellwisePairListHost>(3);
      for (auto &x : t)
        h->push_back(x[0], x[1], x[2]);
      auto l = std::make_shared<CellwisePairListSimple>(w.target, 3);
      l->set(h);
      ls.push_back(l);
      abs.push_back(AbsS(pg(a), pg(b), l));
      ow.push_back(ref_waves(t));
    };
    add(shapes()[s0], 0);
    if (s1)
      add(shapes()[s1 - 1], 5);
    auto loop = make_loop<AbsS>(abs, mask, variant, a, b);
    Rows ma = rows(*a), mb = rows(*b);
    auto run = [&](int s, int t, int how, const char *when) {
      if (how == 0)
        loop->execute();
      else if (how == 1)
        loop->execute(s, t);
      else if (how == 2)
        loop->execute(s);
      else {
        loop->submit(s, t);
        loop->wait();
      }
      model_loop(ow, ma, two_groups ? mb : ma, !two_groups, s, t);
      check_rows(rows(*a), ma, when);
      if (two_groups)
        check_rows(rows(*b), mb, when);
      check_mask(mask, ow, s, t, when);
    };
    run(0, 3, 0, "all cells");
    run(0, 3, 3, "again");
    run(1, 3, 1, "cells 1 and 2");
    run(0, 1, 1, "cell 0");
    run(1, 1, 1, "no cell");
    run(0, 1, 2, "single cell 0");
    run(1, 2, 2, "single cell 1");
    run(2, 3, 2, "single cell 2");
    // replacing a list is seen by the existing loop
    auto h = std::make_shared<CellwisePairListHost>(3);
    h->push_back(1, 1, 2);
    ls[0]->set(h);
    ow[0] = ref_waves({{1, 1, 2}});
    run(0, 3, 0, "after set");
    ls[0]->clear();
    ow[0].clear();
    run(0, 3, 0, "after clear");
    mc::nontrivial();
  });
}

// ------------------------------------------------------------ block lists
struct BlockList : public CellwisePairListBlockInterface {
  CellwisePairListBlockDevice d;
  std::shared_ptr<BufferDevice<int>> wc, pc, pl;
  std::shared_ptr<BufferDevice<INT>> es;
  BlockList(SYCLTargetSharedPtr t, int bs,
            const std::vector<std::vector<std::array<int, 3>>> &cells,
            const std::vector<std::vector<int>> &num_waves, int max_wave,
            int es_shift = 0) {
    const int nc = (int)cells.size();
    size_t nb = 1;
    INT n = 0;
    std::vector<int> hpc;
    std::vector<INT> hes;
    for (auto &c : cells) {
      hpc.push_back((int)c.size());
      hes.push_back(n);
      n += (INT)c.size();
    }
    if (es_shift && nc > 1)
      hes[1] = std::max((INT)0, hes[1] - es_shift);
    for (auto &v : num_waves)
      nb = std::max(nb, v.size());
    std::vector<int> hwc(nb * nc, 0), hpl(3 * n + 1, 0);
    for (int c = 0; c < nc; c++)
      for (size_t b = 0; b < num_waves[c].size(); b++)
        hwc[b * nc + c] = num_waves[c][b];
    INT k = 0;
    for (auto &c : cells)
      for (auto &p : c) {
        for (int q = 0; q < 3; q++)
          hpl[n * q + k] = p[q];
        k++;
      }
    wc = std::make_shared<BufferDevice<int>>(t, hwc);
    pc = std::make_shared<BufferDevice<int>>(t, hpc);
    pl = std::make_shared<BufferDevice<int>>(t, hpl);
    es = std::make_shared<BufferDevice<INT>>(t, hes);
    d.pair_count = n;
    d.block_size = bs;
    d.cell_count = nc;
    d.max_wave_count = max_wave;
    d.d_wave_counts = wc->ptr;
    d.d_pair_counts = pc->ptr;
    d.d_pair_counts_es = es->ptr;
    d.d_pair_list = pl->ptr;
  }
  CellwisePairListBlockDevice get_pair_list() override { return d; }
};
// Assign minimal waves within each block.
static std::vector<std::vector<int>>
block_waves(std::vector<std::vector<std::array<int, 3>>> &cells, int bs,
            int &max_wave) {
  std::vector<std::vector<int>> nw;
  max_wave = 0;
  for (auto &c : cells) {
    nw.push_back({});
    for (size_t b = 0; b * bs < c.size(); b++) {
      std::map<int, int> next;
      int m = 0;
      for (size_t k = b * bs; k < std::min(c.size(), (b + 1) * bs); k++) {
        const int v = std::max(next[c[k][0]], next[c[k][1]]);
        next[c[k][0]] = next[c[k][1]] = v + 1;
        c[k][2] = v;
        m = std::max(m, v + 1);
      }
      nw.back().push_back(m);
      max_wave = std::max(max_wave, m);
    }
  }
  return nw;
}
static bool ref_valid(const std::vector<std::vector<std::array<int, 3>>> &cells,
                      const std::vector<std::vector<int>> &nw, int bs,
                      int max_wave) {
  if (max_wave > bs)
    return false;
  for (size_t c = 0; c < cells.size(); c++)
    for (size_t b = 0; b * bs < cells[c].size(); b++) {
      std::set<std::pair<int, int>> used;
      int m = 0;
      for (size_t k = b * bs; k < std::min(cells[c].size(), (b + 1) * bs);
           k++) {
        auto &p = cells[c][k];
        if (p[0] == p[1] || p[2] < 0 || p[2] >= max_wave || p[2] >= nw[c][b])
          return false;
        if (!used.insert({p[2], p[0]}).second ||
            !used.insert({p[2], p[1]}).second)
          return false;
        m = std::max(m, p[2] + 1);
      }
      if (m != nw[c][b])
        return false;
    }
  return true;
}
static void check_occupancy(World &w, BlockList &l,
                            const std::vector<std::vector<std::array<int, 3>>>
                                &cells,
                            const std::vector<std::vector<int>> &nw, int bs) {
  std::vector<int> want(bs + 1, 0), got(1, 7);
  for (size_t c = 0; c < cells.size(); c++)
    for (size_t b = 0; b * bs < cells[c].size(); b++)
      for (int v = 0; v < nw[c][b]; v++) {
        int n = 0;
        for (size_t k = b * bs; k < std::min(cells[c].size(), (b + 1) * bs);
             k++)
          n += cells[c][k][2] == v;
        want[n]++;
      }
  l.get_wave_occupancy_counts(w.target, got);
  MC_CHECK(got == want, "wave occupancy counts");
  double num = 0, den = 0;
  for (int k = 0; k <= bs; k++) {
    num += k * want[k];
    den += want[k];
  }
  const double mean = get_mean_wave_occupancy(got);
  MC_CHECK(std::abs(mean - (den > 0 ? num / (den * bs) : 0.0)) < 1e-14,
           "mean wave occupancy ", mean);
  auto h = l.get_host_pair_list(w.target);
  for (size_t c = 0; c < cells.size(); c++) {
    MC_CHECK(h.count((int)c), "cell of host list");
    auto &x = h.at((int)c);
    MC_CHECK(std::get<0>(x).size() == cells[c].size() &&
                 std::get<1>(x).size() == cells[c].size() &&
                 std::get<2>(x).size() == cells[c].size(),
             "host list of cell ", c);
    for (size_t k = 0; k < cells[c].size(); k++)
      MC_CHECK(std::get<0>(x)[k] == cells[c][k][0] &&
                   std::get<1>(x)[k] == cells[c][k][1] &&
                   std::get<2>(x)[k] == cells[c][k][2],
               "host list of cell ", c, " pair ", k);
  }
}

static std::vector<std::vector<std::vector<std::array<int, 3>>>> block_cases() {
  typedef std::array<int, 3> T;
  return {{{}, {}, {}},
          {{T{0, 1, 0}}, {}, {}},
          {{}, {T{1, 0, 0}, T{2, 3, 0}}, {}},
          {{T{0, 1, 0}, T{1, 2, 0}, T{3, 0, 0}}, {}, {T{0, 1, 0}}},
          {{T{0, 1, 0}, T{1, 0, 0}, T{0, 1, 0}, T{2, 3, 0}},
           {T{0, 2, 0}, T{3, 1, 0}},
           {T{1, 0, 0}, T{1, 0, 0}, T{0, 1, 0}}},
          {{}, {}, {T{1, 0, 0}, T{0, 1, 0}}}};
}
static void block_loops() {
  const int gpu = mc::choose(2, "gpu");
  const int bs = 1 + mc::choose(4, "block size");
  const int two_groups = mc::choose(2, "two groups");
  const int s0 = mc::choose((int)block_cases().size(), "list");
  const int s1 = mc::choose((int)block_cases().size() + 1, "second list");
  mc_device()->is_gpu = gpu;
  if (!mc_tier)
    mc_set_sched_bound(s1 ? 0 : 1);
  mc::ranks(1, [&](int) {
    World w({3, 1});
    set_param(w, "LOOP_LOCAL_SIZE", bs);
    std::vector<Part> ra, rb;
    auto a = make_group(w, {8, 8, 4}, ra, pair_spec(), 2);
    auto b =
        two_groups ? make_group(w, {8, 8, 4}, rb, pair_spec(), 2, 100) : a;
    LocalArray<INT> mask(w.target, 40, 0);
    std::vector<std::vector<std::vector<std::array<int, 3>>>> lists;
    std::vector<AbsB> abs;
    auto add = [&](int k, int second) {
      auto c = block_cases()[k];
      int mw;
      auto nw = block_waves(c, bs, mw);
      if (second)
        for (int cc = 0; cc < 3; cc++)
          for (auto &p : c[cc])
            for (int q : {0, 1})
              p[q] += cc == 2 ? 2 : 4;
      auto l = std::make_shared<BlockList>(w.target, bs, c, nw, mw);
      MC_CHECK(l->validate_pair_list(w.target), "valid list rejected");
      check_occupancy(w, *l, c, nw, bs);
      lists.push_back(c);
      abs.push_back(AbsB(pg(a), pg(b), l));
    };
    add(s0, 0);
    if (s1)
      add(s1 - 1, 1);
    auto loop = make_loop<AbsB>(abs, mask, 0, a, b);
    Rows ma = rows(*a), mb = rows(*b);
    std::vector<OWaves> ow; // blocks then waves, in order
    for (auto &l : lists) {
      OWaves o;
      for (int c = 0; c < 3; c++)
        for (size_t blk = 0; blk * bs < l[c].size(); blk++)
          for (int v = 0; v < bs; v++) {
            o[c].push_back({});
            for (size_t k = blk * bs;
                 k < std::min(l[c].size(), (blk + 1) * bs); k++)
              if (l[c][k][2] == v)
                o[c].back().push_back({l[c][k][0], l[c][k][1]});
          }
      ow.push_back(o);
    }
    auto run = [&](int s, int t, int how, const char *when) {
      if (how == 0)
        loop->execute();
      else if (how == 1)
        loop->execute(s, t);
      else
        loop->execute(s);
      model_loop(ow, ma, two_groups ? mb : ma, !two_groups, s, t);
      check_rows(rows(*a), ma, when);
      if (two_groups)
        check_rows(rows(*b), mb, when);
      check_mask(mask, ow, s, t, when);
    };
    run(0, 3, 0, "all cells");
    run(1, 3, 1, "cells 1 and 2");
    run(0, 2, 1, "cells 0 and 1");
    run(1, 2, 2, "single cell 1");
    mc::nontrivial();
  });
}

// Exhaustive small lists: every assignment of particles, waves and wave count
// to two or three pairs; validate_pair_list must agree with the definition.
static void block_validate() {
  const int bs = 2 + mc::choose(2, "block size");
  const int n = mc_tier ? 3 : 2;
  std::vector<std::vector<std::array<int, 3>>> c(2);
  for (int k = 0; k < n; k++) {
    const int x = mc::choose(9, "pair");
    const int v = mc::choose(3, "wave");
    c[1].push_back({x / 3, x % 3, v});
  }
  const int tail = mc::choose(2, "other cell");
  if (tail)
    c[0].push_back({0, 1, 0});
  const int nw = mc::choose(4, "waves");
  const int mw = mc::choose(4, "max wave");
  std::vector<std::vector<int>> waves(2);
  if (tail)
    waves[0] = {1};
  for (int b = 0; b * bs < n; b++)
    waves[1].push_back(b == 0 ? nw : 1);
  const bool want = ref_valid(c, waves, bs, mw);
  mc::ranks(1, [&](int) {
    auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    {
      BlockList l(target, bs, c, waves, mw);
      const bool got = l.validate_pair_list(target);
      MC_CHECK(got == want, "validate_pair_list returned ", got, " expected ",
               want);
      if (want && tail) {
        BlockList bad(target, bs, c, waves, mw, 1);
        MC_CHECK(!bad.validate_pair_list(target),
                 "offsets that disagree with the pair counts accepted");
      }
    }
    target->free();
  });
  if (want)
    mc::nontrivial();
}

static void global_occupancy() {
  const int nr = 1 + mc::choose(3, "ranks");
  const int size = 1 + mc::choose(3, "size");
  const int pre = mc::choose(2, "presized");
  mc::ranks(nr, [&](int rank) {
    auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    {
      std::vector<int> loc(size), glob(pre ? 5 : 0, 3);
      for (int k = 0; k < size; k++)
        loc[k] = 10 * rank + k + 1;
      get_global_wave_occupancy_counts(target, loc, glob);
      if (rank == 0) {
        MC_CHECK((int)glob.size() == size, "size of global counts");
        for (int k = 0; k < size; k++)
          MC_CHECK(glob[k] == 10 * nr * (nr - 1) / 2 + nr * (k + 1),
                   "global count ", k);
      }
    }
    target->free();
  });
  mc::nontrivial();
}

const mc_scenario mc_scenarios[] = {{"host_list", host_list},
                                    {"simple_ops", simple_ops},
                                    {"loops", loops},
                                    {"block_loops", block_loops},
                                    {"block_validate", block_validate},
                                    {"global_occupancy", global_occupancy}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
