// DSMC support: the collision cell partition, the two pair samplers and the
// all-to-all schedule of a work group.
#include "model.hpp"
using namespace H;
using namespace NESO::Particles::DSMC;

typedef CellwisePairListAbsolute<ParticleGroup, CellwisePairList> AbsS;
typedef CellwisePairListAbsolute<ParticleGroup, CellwisePairListBlockInterface>
    AbsB;

static ParticleSpec dsmc_spec() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<REAL>("V"), 1),
                      ParticleProp(Sym<INT>("A"), 1),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("S"), 2),
                      ParticleProp(Sym<INT>("C"), 2),
                      ParticleProp(Sym<INT>("N"), 1),
                      ParticleProp(Sym<INT>("X"), 1)};
}
// Hands out a prescribed sequence of samples.
struct Script : public RNGGenerationFunction<REAL> {
  std::vector<REAL> values;
  size_t pos = 0, last = 0;
  void draw_random_samples(SYCLTargetSharedPtr t, REAL *d, const std::size_t n,
                           const int) override {
    last = n;
    std::vector<REAL> v(n);
    for (auto &x : v) {
      x = values.empty() ? 0.5 : values[pos % values.size()];
      pos++;
    }
    if (n)
      t->queue.memcpy(d, v.data(), n * sizeof(REAL)).wait_and_throw();
  }
};
static const INT SPECIES[] = {-3, 7, 20};

// particles with given (cell, species, collision cell)
struct Pt {
  int cell;
  INT species;
  int cc;
};
static TGP make(World &w, const std::vector<Pt> &pts) {
  auto spec = dsmc_spec();
  auto g = std::make_shared<TG>(w.domain, spec, w.target);
  std::vector<Part> v;
  for (size_t k = 0; k < pts.size(); k++) {
    auto p = base_part(2, (int)k, pts[k].cell);
    p.r["V"] = {0};
    p.i["A"] = {0};
    p.i["S"] = {99, pts[k].species};
    p.i["C"] = {-5, pts[k].cc};
    p.i["N"] = {0};
    p.i["X"] = {(INT)k};
    v.push_back(p);
  }
  g->add_particles_local(to_set(v, spec));
  return g;
}
// [cell][layer] -> particle id
static std::map<int, std::vector<INT>> layers(TG &g) {
  std::map<int, std::vector<INT>> r;
  for (auto &p : snapshot(g))
    r[p.cell].push_back(p.i["ID"][0]);
  return r;
}
template <typename T, typename F>
static std::vector<T> on_device(World &w, int n, F f) {
  auto *p = sycl::malloc_device<T>(n + 1, w.target->queue);
  w.target->queue
      .submit([&](sycl::handler &h) { h.single_task([=]() { f(p); }); })
      .wait_and_throw();
  std::vector<T> v(n);
  if (n)
    w.target->queue.memcpy(v.data(), p, n * sizeof(T)).wait_and_throw();
  sycl::free(p, w.target->queue);
  return v;
}

// ------------------------------------------------------- partition
typedef std::map<std::array<INT, 3>, std::set<INT>> Part3; // ids

static void check_partition(World &w, CollisionCellPartition &p, TG &g,
                            const std::vector<Pt> &pts,
                            const std::function<bool(INT)> &in,
                            const std::vector<int> &counts,
                            const std::vector<INT> &species,
                            const char *when) {
  const int nc = (int)counts.size();
  auto lay = layers(g);
  Part3 want;
  for (size_t k = 0; k < pts.size(); k++)
    if (in((INT)k) &&
        std::count(species.begin(), species.end(), pts[k].species))
      want[{pts[k].cell, pts[k].cc, pts[k].species}].insert((INT)k);
  INT occ = 0;
  auto d = p.get_device();
  MC_CHECK(d.mesh_cell_count == nc, when, " mesh cell count");
  MC_CHECK(p.collision_cell_counts == counts, when, " collision cell counts");
  std::set<INT> lin;
  for (auto s : species) {
    const INT ls = p.get_linear_species_id(s);
    MC_CHECK(ls >= 0 && ls < (INT)species.size() && lin.insert(ls).second,
             when, " linear species id ", ls);
    auto q = on_device<INT>(w, 2, [=](INT *o) {
      INT x = -7;
      o[0] = d.get_linear_species_index(s, &x);
      o[1] = x;
    });
    MC_CHECK(q[0] && q[1] == ls, when, " device species id");
    for (int c = 0; c < nc; c++)
      for (int cc = 0; cc < counts[c]; cc++) {
        const auto &ids = want[{c, cc, s}];
        occ = std::max(occ, (INT)ids.size());
        const INT n = on_device<INT>(w, 1, [=](INT *o) {
          o[0] = d.get_num_particles_cell_species(c, cc, ls);
        })[0];
        MC_CHECK(n == (INT)ids.size(), when, " number of particles of species ",
                 s, " in cell ", c, " collision cell ", cc, ": ", n,
                 " expected ", ids.size());
        auto l = on_device<INT>(w, (int)n, [=](INT *o) {
          for (INT k = 0; k < n; k++)
            o[k] = d.get_particle_layer(c, cc, ls, k);
        });
        std::set<INT> got;
        for (auto x : l) {
          MC_CHECK(x >= 0 && x < (INT)lay[c].size(), when, " layer ", x);
          MC_CHECK(got.insert(lay[c][x]).second, when, " particle repeated");
        }
        MC_CHECK(got == ids, when, " particles of species ", s, " in cell ", c,
                 " collision cell ", cc);
      }
  }
  auto q = on_device<INT>(w, 1, [=](INT *o) {
    INT x = -7;
    o[0] = d.get_linear_species_index(1234, &x);
  });
  MC_CHECK(!q[0], when, " unknown species found");
  MC_CHECK(p.max_collision_cell_occupancy == occ, when, " maximum occupancy ",
           p.max_collision_cell_occupancy, " expected ", occ);
  for (auto a : species)
    for (auto b : species)
      for (int rep = 0; rep < 2; rep++) {
        std::vector<std::vector<int>> m(1, {9, 9, 9, 9});
        p.get_max_num_pairs(a, b, rep, m);
        MC_CHECK((int)m.size() == nc, when, " max pairs cells");
        for (int c = 0; c < nc; c++) {
          MC_CHECK((int)m[c].size() == counts[c], when, " max pairs ccells");
          for (int cc = 0; cc < counts[c]; cc++) {
            const int na = (int)want[{c, cc, a}].size(),
                      nb = (int)want[{c, cc, b}].size();
            const int mx = std::numeric_limits<int>::max();
            int exp;
            if (a == b)
              exp = rep ? (na >= 2 ? mx : 0) : na / 2;
            else
              exp = rep ? (na && nb ? mx : 0) : std::min(na, nb);
            MC_CHECK(m[c][cc] == exp, when, " max number of pairs ", a, ",", b,
                     " replacement ", rep, ": ", m[c][cc], " expected ", exp);
          }
        }
      }
}
static std::vector<std::vector<int>> cc_counts() {
  return {{2, 2}, {3, 1}, {1, 2}, {2, 0}};
}
static void partition() {
  const int n = mc_tier ? 4 : 3;
  const int cfg = mc::choose(4, "collision cells");
  auto counts = cc_counts()[cfg];
  const int sub = mc::choose(2, "sub group");
  std::vector<Pt> pts;
  for (int k = 0; k < n; k++) {
    const int s = mc::choose(3, "species");
    const int cell = counts[1] == 0 ? 0 : mc::choose(2, "cell");
    const int cc = mc::choose(counts[cell], "collision cell");
    pts.push_back({cell, s < 2 ? SPECIES[s] : 555, cc});
  }
  mc_set_sched_bound(0);
  mc::ranks(1, [&](int) {
    World w({2, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    auto g = make(w, pts);
    auto in = [=](INT id) { return !sub || id % 2 == 0; };
    auto sg = sub ? particle_sub_group(
                        pg(g), [](auto ID) { return ID.at(0) % 2 == 0; },
                        Access::read(Sym<INT>("ID")))
                  : particle_sub_group(pg(g));
    std::vector<INT> species{SPECIES[1], SPECIES[0], SPECIES[1]};
    CollisionCellPartition p(w.target, 2, species);
    species = {SPECIES[1], SPECIES[0]};
    p.construct(sg, counts, Sym<INT>("S"), 1, Sym<INT>("C"), 1);
    check_partition(w, p, *g, pts, in, counts, species, "first");
    // move every particle to collision cell 0 and use fewer collision cells
    particle_loop(
        "z", pg(g), [=](auto C) { C.at(1) = 0; },
        Access::write(Sym<INT>("C")))
        ->execute();
    for (auto &x : pts)
      x.cc = 0;
    std::vector<int> one{1, 1};
    p.construct(sg, one, Sym<INT>("S"), 1, Sym<INT>("C"), 1);
    check_partition(w, p, *g, pts, in, one, species, "second");
    p.construct(sg, counts, Sym<INT>("S"), 1, Sym<INT>("C"), 1);
    check_partition(w, p, *g, pts, in, counts, species, "third");
    mc::nontrivial();
  });
}
// ranks without particles, or without any collision cell
static void partition_empty() {
  const int cfg = mc::choose(3, "collision cells");
  const int n = mc::choose(2, "particles");
  std::vector<int> counts =
      cfg == 0 ? std::vector<int>{1, 2}
               : cfg == 1 ? std::vector<int>{0, 1} : std::vector<int>{1, 0};
  mc::ranks(1, [&](int) {
    World w({2, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    std::vector<Pt> pts;
    if (n)
      pts.push_back({cfg == 1 ? 1 : 0, 7, 0});
    auto g = make(w, pts);
    CollisionCellPartition p(w.target, 2, {7});
    auto sg = particle_sub_group(pg(g));
    p.construct(sg, counts, Sym<INT>("S"), 1, Sym<INT>("C"), 1);
    check_partition(
        w, p, *g, pts, [](INT) { return true; }, counts, {7}, "empty");
    auto sp = std::make_shared<CollisionCellPartition>(w.target, 2,
                                                       std::vector<INT>{7});
    sp->construct(sg, counts, Sym<INT>("S"), 1, Sym<INT>("C"), 1);
    auto rng = std::make_shared<Script>();
    PairSamplerNoReplacement s(w.target, 2, rng);
    std::vector<std::vector<int>> m;
    sp->get_max_num_pairs(7, 7, false, m);
    s.sample(sp, 7, 7, m);
    auto h = s.get_host_pair_list();
    for (auto &c : h)
      for (auto &v : c.second)
        MC_CHECK(v.second.first.empty(), "pairs without particles");
    MC_CHECK(s.get_pair_list().pair_count == 0, "pair count");
    mc::nontrivial();
  });
}

// -------------------------------------------------- without replacement
static const REAL GRID[] = {0.0, 0.34, 0.5, 0.99999999999, 1.0};

static void check_no_replacement(World &w, PairSamplerNoReplacement &s, TG &g,
                                 const std::vector<Pt> &pts, INT a, INT b,
                                 const std::vector<std::vector<int>> &counts,
                                 const char *when) {
  auto lay = layers(g);
  auto h = s.get_host_pair_list();
  auto d = s.get_pair_list();
  INT total = 0;
  std::set<INT> used;
  const int nc = (int)counts.size();
  for (int c = 0; c < nc; c++) {
    std::map<int, int> per;
    std::vector<std::pair<int, int>> ps;
    if (h.count(c))
      for (auto &v : h[c])
        for (size_t k = 0; k < v.second.first.size(); k++)
          ps.push_back({v.second.first[k], v.second.second.at(k)});
    for (auto &x : ps) {
      MC_CHECK(x.first >= 0 && x.first < (int)lay[c].size() && x.second >= 0 &&
                   x.second < (int)lay[c].size(),
               when, " pair outside of the cell");
      const INT i = lay[c][x.first], j = lay[c][x.second];
      MC_CHECK(pts[i].species == a && pts[j].species == b, when,
               " species of the pair ", pts[i].species, ",", pts[j].species,
               " expected ", a, ",", b);
      MC_CHECK(pts[i].cc == pts[j].cc, when,
               " pair across collision cells ", pts[i].cc, ",", pts[j].cc);
      MC_CHECK(used.insert(i).second && used.insert(j).second, when,
               " a particle was sampled twice");
      per[pts[i].cc]++;
    }
    int n = 0;
    for (int cc = 0; cc < (int)counts[c].size(); cc++) {
      MC_CHECK(per[cc] == counts[c][cc], when, " pairs in cell ", c,
               " collision cell ", cc, ": ", per[cc], " expected ",
               counts[c][cc]);
      n += counts[c][cc];
    }
    total += n;
    MC_CHECK((int)ps.size() == n, when, " pairs in cell ", c);
    // device description
    auto q = on_device<INT>(w, 2 + 3 * n, [=](INT *o) {
      o[0] = d.get_num_waves(c);
      o[1] = d.get_num_pairs(0, c);
      for (int k = 0; k < n; k++) {
        o[2 + 3 * k] = d.get_particle_index_i(0, c, k);
        o[3 + 3 * k] = d.get_particle_index_j(0, c, k);
        o[4 + 3 * k] = d.get_pair_linear_index(0, c, k);
      }
    });
    MC_CHECK(q[0] == 1 && q[1] == n && d.get_num_pairs_host(0, c) == n, when,
             " device pairs in cell ", c);
    for (int k = 0; k < n; k++)
      MC_CHECK(q[2 + 3 * k] == ps[k].first && q[3 + 3 * k] == ps[k].second &&
                   q[4 + 3 * k] == total - n + k,
               when, " device pair ", k);
  }
  MC_CHECK(d.pair_count == total, when, " pair count ", d.pair_count);
  MC_CHECK(d.cell_count == nc, when, " cell count");
}
static void run_pairs(World &w, TGP g, CellwisePairListSharedPtr l,
                      const char *when) {
  auto before = snapshot(*g);
  particle_pair_loop(
      "p", std::vector<AbsS>{AbsS(pg(g), pg(g), l)},
      [=](auto A, auto B) {
        A.at(0) += 1;
        B.at(0) += 1;
      },
      Access::A(Access::write(Sym<INT>("N"))),
      Access::B(Access::write(Sym<INT>("N"))))
      ->execute();
  auto lay = layers(*g);
  std::map<INT, INT> exp;
  for (auto &p : before)
    exp[p.i["ID"][0]] = p.i["N"][0];
  for (auto &c : l->get_host_pair_list())
    for (auto &v : c.second)
      for (size_t k = 0; k < v.second.first.size(); k++) {
        exp[lay[c.first][v.second.first[k]]]++;
        exp[lay[c.first][v.second.second[k]]]++;
      }
  for (auto &p : snapshot(*g))
    MC_CHECK(p.i["N"][0] == exp[p.i["ID"][0]], when, " pair loop over samples");
}

// Two mesh cells; occupancies chosen; every grid sample.
static void no_replacement() {
  const int same = mc::choose(2, "same species");
  const int shape = mc::choose(5, "shape");
  mc_set_sched_bound(0);
  // number of particles of species a/b in the three collision cells
  // (cell 0: cc 0 and 1, cell 1: cc 0)
  static const int na[5][3] = {{2, 0, 0}, {3, 0, 2}, {1, 2, 3}, {4, 2, 0}, {0, 1, 2}};
  static const int nb[5][3] = {{1, 0, 0}, {2, 1, 1}, {2, 1, 1}, {1, 2, 0}, {2, 2, 2}};
  std::vector<Pt> pts;
  int mx[3];
  for (int r = 0; r < 4; r++) // interleaved so layers differ from ranks
    for (int q = 0; q < 3; q++) {
      const int cell = q == 2, cc = q == 1;
      if (r < na[shape][q])
        pts.push_back({cell, SPECIES[0], cc});
      if (r < nb[shape][q])
        pts.push_back({cell, SPECIES[1], cc});
      if (r == 1)
        pts.push_back({cell, SPECIES[2], cc});
    }
  int total = 0;
  std::vector<std::vector<int>> counts{{0, 0}, {0}};
  for (int q = 0; q < 3; q++) {
    mx[q] = same ? na[shape][q] / 2 : std::min(na[shape][q], nb[shape][q]);
    const int v = mc::choose(mx[q] + 1, "pairs");
    (q == 2 ? counts[1][0] : counts[0][q]) = v;
    total += v;
  }
  auto rng = std::make_shared<Script>();
  const int ng = total <= 2 ? 5 : (mc_tier ? 3 : 2);
  for (int k = 0; k < 2 * std::min(total, 3); k++)
    rng->values.push_back(GRID[ng == 5 ? mc::choose(5, "u")
                                       : (ng == 3 ? 2 : 4) *
                                             mc::choose(ng, "u")]);
  const size_t local = 1 + mc::choose(2, "local size");
  mc::ranks(1, [&](int) {
    World w({2, 1});
    set_param(w, "LOOP_LOCAL_SIZE", local);
    auto g = make(w, pts);
    auto p = std::make_shared<CollisionCellPartition>(
        w.target, 2, std::vector<INT>{SPECIES[0], SPECIES[1], SPECIES[2]});
    auto sg = particle_sub_group(pg(g));
    std::vector<int> cc{2, 1};
    p->construct(sg, cc, Sym<INT>("S"), 1, Sym<INT>("C"), 1);
    auto s = std::make_shared<PairSamplerNoReplacement>(w.target, 2, rng);
    const INT a = SPECIES[0], b = same ? SPECIES[0] : SPECIES[1];
    s->sample(p, a, b, counts);
    check_no_replacement(w, *s, *g, pts, a, b, counts, "sample");
    run_pairs(w, g, s, "first");
    // resample with the largest number of pairs, then with none
    std::vector<std::vector<int>> m;
    p->get_max_num_pairs(a, b, false, m);
    s->sample(p, a, b, m);
    check_no_replacement(w, *s, *g, pts, a, b, m, "maximum");
    run_pairs(w, g, s, "second");
    std::vector<std::vector<int>> z{{}, {0}};
    s->sample(p, a, b, z);
    check_no_replacement(w, *s, *g, pts, a, b, z, "none");
    run_pairs(w, g, s, "third");
    mc::nontrivial();
  });
}
// With samples on a regular grid every outcome occurs equally often.
static void no_replacement_uniform() {
  const int same = mc::choose(2, "same species");
  const int na = 2 + mc::choose(3, "a");
  const int nb = same ? na : 1 + mc::choose(3, "b");
  const int pairs = 1 + mc::choose(2, "pairs");
  if (same ? 2 * pairs > na : (pairs > na || pairs > nb))
    mc_discard();
  mc_set_sched_bound(0);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 1);
    std::vector<Pt> pts;
    for (int k = 0; k < na; k++)
      pts.push_back({0, SPECIES[0], 0});
    if (!same)
      for (int k = 0; k < nb; k++)
        pts.push_back({0, SPECIES[1], 0});
    auto g = make(w, pts);
    auto p = std::make_shared<CollisionCellPartition>(
        w.target, 1, std::vector<INT>{SPECIES[0], SPECIES[1]});
    std::vector<int> cc{1};
    p->construct(particle_sub_group(pg(g)), cc, Sym<INT>("S"), 1, Sym<INT>("C"),
                 1);
    auto rng = std::make_shared<Script>();
    PairSamplerNoReplacement s(w.target, 1, rng);
    // candidates left at each of the 2*pairs draws, in the order the samples
    // are consumed: first the a samples then the b samples
    std::vector<int> left(2 * pairs);
    size_t combos = 1;
    for (int k = 0; k < pairs; k++) {
      left[k] = same ? na - 2 * k : na - k;
      left[pairs + k] = same ? na - 2 * k - 1 : nb - k;
    }
    for (auto x : left)
      combos *= x;
    std::map<std::vector<INT>, int> seen;
    auto lay = layers(*g);
    for (size_t k = 0; k < combos; k++) {
      size_t r = k;
      rng->values.clear();
      rng->pos = 0;
      for (auto x : left) {
        rng->values.push_back(((r % x) + 0.5) / x);
        r /= x;
      }
      s.sample(p, SPECIES[0], same ? SPECIES[0] : SPECIES[1], {{pairs}});
      auto h = s.get_host_pair_list();
      std::vector<INT> o;
      for (int q = 0; q < pairs; q++) {
        o.push_back(h[0][0].first.at(q));
        o.push_back(h[0][0].second.at(q));
      }
      seen[o]++;
    }
    MC_CHECK(seen.size() == combos, "equally spaced samples gave ", seen.size(),
             " of ", combos, " possible outcomes");
    mc::nontrivial();
  });
}

// --------------------------------------------------------------- NTC
static void check_ntc(World &w, PairSamplerNTC &s, TG &g,
                      const std::function<bool(INT)> &ina,
                      const std::function<bool(INT)> &inb, bool same,
                      const std::vector<int> &counts, int bs,
                      const char *when) {
  auto lay = layers(g);
  auto d = s.get_pair_list();
  const int nc = (int)counts.size();
  INT total = 0;
  for (auto x : counts)
    total += x;
  MC_CHECK(d.cell_count == nc && d.block_size == bs && d.pair_count == total,
           when, " dimensions of the pair list");
  int mw = 0;
  auto h = s.get_host_pair_list(w.target);
  INT es = 0;
  for (int c = 0; c < nc; c++) {
    auto &x = h[c];
    const int n = (int)std::get<0>(x).size();
    MC_CHECK(n == counts[c], when, " pairs in cell ", c, ": ", n, " expected ",
             counts[c]);
    for (int b = 0; b * bs < n; b++) {
      std::set<std::pair<int, int>> used;
      int m = 0;
      for (int k = b * bs; k < std::min(n, (b + 1) * bs); k++) {
        const int i = std::get<0>(x)[k], j = std::get<1>(x)[k],
                  v = std::get<2>(x)[k];
        MC_CHECK(i >= 0 && i < (int)lay[c].size() && j >= 0 &&
                     j < (int)lay[c].size(),
                 when, " pair ", k, " (", i, ",", j, ") outside of the cell");
        MC_CHECK(ina(lay[c][i]) && inb(lay[c][j]), when, " pair ", k,
                 " is not of the two sub groups");
        MC_CHECK(i != j, when, " particle paired with itself");
        MC_CHECK(v >= 0 && v < bs, when, " wave ", v);
        MC_CHECK(used.insert({v, i}).second && used.insert({v, j}).second, when,
                 " particle used twice in wave ", v, " of block ", b,
                 " of cell ", c);
        m = std::max(m, v + 1);
      }
      const int nw = on_device<int>(w, 1, [=](int *o) {
        o[0] = d.get_num_waves(c, b);
      })[0];
      MC_CHECK(nw == m, when, " number of waves of block ", b, " of cell ", c,
               ": ", nw, " expected ", m);
      mw = std::max(mw, m);
    }
    const int lin = on_device<int>(w, 1, [=](int *o) {
      o[0] = d.get_pair_linear_index(c, 0);
    })[0];
    MC_CHECK(lin == es, when, " linear index of cell ", c);
    es += n;
  }
  MC_CHECK(d.max_wave_count == mw, when, " max wave count ", d.max_wave_count,
           " expected ", mw);
  MC_CHECK(s.validate_pair_list(w.target), when, " list does not validate");
}
static inline INT upd(INT a, INT b) { return (a * 7 + b * 3 + 1) % 1000003; }

static void ntc_impl(int gpu, int bs, int groups, int shape, int npairs,
                     std::vector<REAL> u, int extra) {
  mc_device()->is_gpu = gpu;
  mc::ranks(1, [&](int) {
    World w({2, 1});
    set_param(w, "LOOP_LOCAL_SIZE", bs);
    // cell 0: `shape` particles; cell 1: three particles
    std::vector<Pt> pts;
    for (int k = 0; k < shape; k++)
      pts.push_back({0, 0, 0});
    for (int k = 0; k < 3; k++)
      pts.push_back({1, 0, 0});
    auto g = make(w, pts);
    // groups 0: whole,whole 1: sub,sub(same) 2: even,odd
    std::function<bool(INT)> ina = [](INT) { return true; }, inb = ina;
    ParticleSubGroupSharedPtr A, B;
    if (groups == 0)
      A = B = particle_sub_group(pg(g));
    else if (groups == 1) {
      A = B = particle_sub_group(
          pg(g), [](auto ID) { return ID.at(0) != 1; },
          Access::read(Sym<INT>("ID")));
      ina = inb = [](INT id) { return id != 1; };
    } else {
      A = particle_sub_group(
          pg(g), [](auto ID) { return ID.at(0) % 2 == 0; },
          Access::read(Sym<INT>("ID")));
      B = particle_sub_group(
          pg(g), [](auto ID) { return ID.at(0) % 2 == 1; },
          Access::read(Sym<INT>("ID")));
      ina = [](INT id) { return id % 2 == 0; };
      inb = [](INT id) { return id % 2 == 1; };
    }
    auto rng = std::make_shared<Script>();
    rng->values = u;
    auto s = std::make_shared<PairSamplerNTC>(w.target, 2, rng);
    std::vector<int> counts{npairs, extra};
    s->sample(A, B, counts);
    check_ntc(w, *s, *g, ina, inb, A == B, counts, bs, "sample");
    // order sensitive pair loop
    auto lay = layers(*g);
    std::map<INT, INT> x;
    for (auto &p : snapshot(*g))
      x[p.i["ID"][0]] = p.i["X"][0];
    auto h = s->get_host_pair_list(w.target);
    for (int c = 0; c < 2; c++) {
      auto &t = h[c];
      const int n = (int)std::get<0>(t).size();
      for (int b = 0; b * bs < n; b++)
        for (int v = 0; v < bs; v++)
          for (int k = b * bs; k < std::min(n, (b + 1) * bs); k++)
            if (std::get<2>(t)[k] == v) {
              INT &xa = x[lay[c][std::get<0>(t)[k]]],
                  &xb = x[lay[c][std::get<1>(t)[k]]];
              const INT ya = upd(xa, xb), yb = upd(xb, xa);
              xa = ya;
              xb = yb;
            }
    }
    particle_pair_loop(
        "p", std::vector<AbsB>{AbsB(pg(g), pg(g), s)},
        [=](auto XA, auto XB) {
          const INT a = XA.at(0), b = XB.at(0);
          XA.at(0) = upd(a, b);
          XB.at(0) = upd(b, a);
        },
        Access::A(Access::write(Sym<INT>("X"))),
        Access::B(Access::write(Sym<INT>("X"))))
        ->execute();
    for (auto &p : snapshot(*g))
      MC_CHECK(p.i["X"][0] == x[p.i["ID"][0]],
               "pair loop over the sampled list: particle ", p.i["ID"][0]);
    // sample again: fewer pairs, then none
    counts = {std::min(npairs, 1), 1};
    if (groups == 2 && shape < 2)
      counts[0] = 0;
    s->sample(A, B, counts);
    check_ntc(w, *s, *g, ina, inb, A == B, counts, bs, "second");
    counts = {0, 0};
    s->sample(A, B, counts);
    check_ntc(w, *s, *g, ina, inb, A == B, counts, bs, "none");
    mc::nontrivial();
  });
}
// all samples
static void ntc_samples() {
  const int gpu = mc::choose(2, "gpu");
  const int bs = 1 + mc::choose(3, "block size");
  const int groups = mc::choose(3, "groups");
  const int shape = 3 + mc::choose(2, "particles");
  const int npairs = mc::choose(mc_tier ? 5 : 4, "pairs");
  const int extra = mc::choose(2, "pairs in cell 1") * 3;
  std::vector<REAL> u;
  const int free_ = std::min(npairs, 2);
  for (int k = 0; k < 2 * (npairs + extra); k++) {
    const bool isf = k < free_ || (k >= npairs + extra &&
                                   k < npairs + extra + free_);
    u.push_back(isf ? GRID[mc::choose(5, "u")] : 0.07 + 0.11 * (k % 8));
  }
  mc_set_sched_bound(0);
  ntc_impl(gpu, bs, groups, shape, npairs, u, extra);
}
// all interleavings of the device's conflict resolution
static void ntc_schedules() {
  const int bs = 2 + mc::choose(2, "block size");
  const int groups = mc::choose(3, "groups");
  const int npairs = 2 + mc::choose(mc_tier ? 4 : 3, "pairs");
  const int pat = mc::choose(4, "samples");
  std::vector<REAL> u(2 * npairs);
  for (int k = 0; k < 2 * npairs; k++)
    u[k] = pat == 0   ? 0.0
           : pat == 1 ? (k % 2 ? 0.0 : 0.6)
           : pat == 2 ? (k % 3) * 0.4
                      : (k * 5 % 7) / 7.0;
  mc_set_sched_bound(mc_tier ? 3 : 2);
  ntc_impl(1, bs, groups, 4, npairs, u, 0);
}
// equally spaced samples reach every pair equally often
static void ntc_uniform() {
  const int gpu = mc::choose(2, "gpu");
  const int same = mc::choose(2, "same group");
  const int n = 2 + mc::choose(3, "particles");
  mc_device()->is_gpu = gpu;
  mc_set_sched_bound(0);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    std::vector<Pt> pts(n + 1, Pt{0, 0, 0});
    auto g = make(w, pts);
    auto A = particle_sub_group(
        pg(g), [=](auto ID) { return ID.at(0) != 0; },
        Access::read(Sym<INT>("ID")));
    auto B = same ? A
                  : particle_sub_group(
                        pg(g), [=](auto ID) { return ID.at(0) == 0; },
                        Access::read(Sym<INT>("ID")));
    auto rng = std::make_shared<Script>();
    PairSamplerNTC s(w.target, 1, rng);
    const int nb = same ? n - 1 : 1;
    std::set<std::pair<int, int>> seen;
    for (int a = 0; a < n; a++)
      for (int b = 0; b < nb; b++) {
        rng->values = {(a + 0.5) / n, (b + 0.5) / nb};
        rng->pos = 0;
        std::vector<int> one{1};
        s.sample(A, B, one);
        auto h = s.get_host_pair_list(w.target);
        seen.insert({std::get<0>(h[0]).at(0), std::get<1>(h[0]).at(0)});
      }
    MC_CHECK((int)seen.size() == n * nb, "equally spaced samples gave ",
             seen.size(), " of ", n * nb, " possible pairs");
    mc::nontrivial();
  });
}
// A stale list is refused.
static void ntc_stale() {
  const int how = mc::choose(3, "change");
  int abort_ = 0;
  mc::ranks(1, [&](int) {
    World w({2, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    std::vector<Pt> pts{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {1, 0, 0}};
    auto g = make(w, pts);
    auto A = particle_sub_group(
        pg(g), [](auto ID) { return ID.at(0) < 3; },
        Access::read(Sym<INT>("ID")));
    auto rng = std::make_shared<Script>();
    PairSamplerNTC s(w.target, 2, rng);
    std::vector<int> counts{1, 0};
    s.sample(A, A, counts);
    s.get_pair_list();
    if (how == 0)
      g->remove_particles(1, std::vector<INT>{0}, std::vector<INT>{0});
    else if (how == 1)
      A.reset();
    else {
      s.get_pair_list(); // unchanged: accepted again
      return;
    }
    mc_expect_abort(1);
    try {
      s.get_pair_list();
    } catch (mc::Aborted &) {
    }
    abort_ = mc_abort_count();
    mc_expect_abort(0);
  });
  if (how < 2)
    MC_CHECK(abort_ > 0, "a stale pair list was handed out");
  mc::nontrivial();
}

// ------------------------------------------------------ all to all schedule
static void all_to_all() {
  const int size = 1 << mc::choose(mc_tier ? 5 : 4, "work group");
  const int n = mc::choose(mc_tier ? 70 : 40, "n");
  // phase -> list of (row, col) of each work item
  std::vector<std::vector<std::vector<std::pair<int, int>>>> ph(size);
  for (int k = 0; k < size; k++) {
    CellwiseAllToAll x(size, k);
    ph[k].push_back({});
    x.apply(
        n, [&](int r, int c) { ph[k].back().push_back({r, c}); },
        [&]() { ph[k].push_back({}); });
  }
  std::map<std::pair<int, int>, int> seen;
  for (int k = 0; k < size; k++)
    MC_CHECK(ph[k].size() == ph[0].size(), "work item ", k,
             " synchronises a different number of times");
  for (size_t p = 0; p < ph[0].size(); p++) {
    for (int k = 0; k < size; k++)
      for (auto &x : ph[k][p]) {
        MC_CHECK(x.first >= 0 && x.first < n && x.second >= 0 && x.second < n,
                 "pair (", x.first, ",", x.second, ") of ", n);
        MC_CHECK(x.first != x.second, "particle paired with itself");
        seen[{std::min(x.first, x.second), std::max(x.first, x.second)}]++;
      }
  }
  for (auto &x : seen)
    MC_CHECK(x.second == 1, "pair (", x.first.first, ",", x.first.second,
             ") visited ", x.second, " times");
  MC_CHECK((int)seen.size() == n * (n - 1) / 2, seen.size(), " of ",
           n * (n - 1) / 2, " pairs visited");
  mc::nontrivial();
}

const mc_scenario mc_scenarios[] = {
    {"partition", partition},
    {"partition_empty", partition_empty},
    {"no_replacement", no_replacement},
    {"no_replacement_uniform", no_replacement_uniform},
    {"ntc_samples", ntc_samples},
    {"ntc_schedules", ntc_schedules},
    {"ntc_uniform", ntc_uniform},
    {"ntc_stale", ntc_stale},
    {"all_to_all", all_to_all}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
