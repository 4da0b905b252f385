// Data accumulated by, read in, or written from particle loops through loop
// arguments equals the sequential result for every work-item order and
// every distribution over ranks.
#include "model.hpp"
using namespace H;

static ParticleSpec spec1() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<REAL>("V"), 3),
                      ParticleProp(Sym<INT>("A"), 2),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("X"), 6)};
}
static std::vector<int> pick_occ(int nc, const std::vector<int> &vals) {
  std::vector<int> o;
  for (int c = 0; c < nc; c++)
    o.push_back(vals[mc::choose((int)vals.size(), "occupancy")]);
  return o;
}
static INT val(INT id, int c) { return (INT)(mix(id * 7 + c) % 2001) - 1000; }

// a loop over the whole group or over particles with odd ID
template <typename K, typename... A>
static void run(bool sub, TGP g, K k, A... a) {
  if (!sub)
    particle_loop(pg(g), k, a...)->execute();
  else
    particle_loop(particle_sub_group(
                      pg(g), [=](auto ID) { return ID.at(0) % 2 == 1; },
                      Access::read(Sym<INT>("ID"))),
                  k, a...)
        ->execute();
}

template <typename T> static void cdc(bool schedules) {
  const bool sub = mc::choose(2, "sub");
  const int kind = mc::choose(7, "kind"); // add min max read/write red x3
  const int local = 1 << mc::choose(schedules ? 2 : 3, "local");
  const int nrow = 1 + mc::choose(schedules ? 1 : 2, "nrow");
  const int ncol = 1 + mc::choose(schedules ? 1 : 2, "ncol");
  auto occ = schedules ? pick_occ(2, {2, 3})
             : kind >= 4 && mc_tier ? pick_occ(2, {0, 1, 5, 17, 40})
                                    : pick_occ(2, {0, 1, 5, 17});
  mc_set_item_order(mc::choose(3, "order"));
  if (schedules)
    mc_set_sched_bound(mc_tier ? 3 : 2);
  mc::ranks(1, [&](int) {
    World w({(int)occ.size(), 1});
    set_param(w, "LOOP_LOCAL_SIZE", local);
    std::vector<Part> ref;
    auto g = make_group(w, occ, ref, spec1(), 2);
    const int nc = (int)occ.size();
    auto C = std::make_shared<CellDatConst<T>>(w.target, nc, nrow, ncol);
    std::vector<std::vector<T>> want(nc, std::vector<T>(nrow * ncol));
    std::vector<CellData<T>> init;
    for (int c = 0; c < nc; c++) {
      auto d = std::make_shared<CellDataT<T>>(w.target, nrow, ncol);
      for (int r = 0; r < nrow; r++)
        for (int q = 0; q < ncol; q++)
          want[c][q * nrow + r] = d->at(r, q) = (T)val(900 + c, r * 5 + q) / 2;
      init.push_back(d);
    }
    C->set_all_cells(init);
    auto V = [=](INT id, int r, int q) { return (T)val(id, r * 3 + q); };
    switch (kind) {
    case 0:
      run(sub, g,
          [=](auto ID, auto X) {
            for (int r = 0; r < nrow; r++)
              for (int q = 0; q < ncol; q++)
                X.fetch_add(r, q, V(ID.at(0), r, q));
          },
          Access::read(Sym<INT>("ID")), Access::add(C));
      break;
    case 1:
      run(sub, g,
          [=](auto ID, auto X) {
            for (int r = 0; r < nrow; r++)
              for (int q = 0; q < ncol; q++)
                X.fetch_min(r, q, V(ID.at(0), r, q));
          },
          Access::read(Sym<INT>("ID")), Access::min(C));
      break;
    case 2:
      run(sub, g,
          [=](auto ID, auto X) {
            for (int r = 0; r < nrow; r++)
              for (int q = 0; q < ncol; q++)
                X.fetch_max(r, q, V(ID.at(0), r, q));
          },
          Access::read(Sym<INT>("ID")), Access::max(C));
      break;
    case 3: // the particle of layer 0 writes, every particle then reads
      run(sub, g,
          [=](auto IX, auto ID, auto X) {
            if (IX.loop_layer == 0)
              for (int r = 0; r < nrow; r++)
                for (int q = 0; q < ncol; q++)
                  X.at(r, q) = V(IX.cell + 77, r, q);
          },
          Access::read(ParticleLoopIndex{}), Access::read(Sym<INT>("ID")),
          Access::write(C));
      run(sub, g,
          [=](auto X, auto O) {
            T s = 0;
            for (int r = 0; r < nrow; r++)
              for (int q = 0; q < ncol; q++)
                s += X.at(r, q) * (1 + r + 2 * q) +
                     (X[q * nrow + r] == X.at(r, q) ? 0 : 1000);
            O.at(0) = (INT)s;
          },
          Access::read(C), Access::write(Sym<INT>("X")));
      break;
    case 4:
    case 5:
    case 6: {
      auto k = [=](auto ID, auto X, auto O) {
        for (int r = 0; r < nrow; r++)
          for (int q = 0; q < ncol; q++)
            X.combine(r, q, V(ID.at(0), r, q));
        O.at(0) = 1;
      };
      auto i = Access::read(Sym<INT>("ID"));
      auto o = Access::write(Sym<INT>("X"));
      if (kind == 4)
        run(sub, g, k, i, Access::reduce(C, Kernel::plus<T>()), o);
      else if (kind == 5)
        run(sub, g, k, i, Access::reduce(C, Kernel::minimum<T>()), o);
      else
        run(sub, g, k, i, Access::reduce(C, Kernel::maximum<T>()), o);
      break;
    }
    }
    std::vector<int> n(nc, 0);
    for (auto &p : ref) {
      const INT id = p.i["ID"][0];
      if (sub && id % 2 == 0)
        continue;
      n[p.cell]++;
      for (int r = 0; r < nrow; r++)
        for (int q = 0; q < ncol; q++) {
          T &x = want[p.cell][q * nrow + r];
          const T v = V(id, r, q);
          if (kind == 0 || kind == 4)
            x += v;
          if (kind == 1 || kind == 5)
            x = std::min(x, v);
          if (kind == 2 || kind == 6)
            x = std::max(x, v);
          if (kind == 3)
            x = V(p.cell + 77, r, q);
        }
    }
    auto all = C->get_all_cells();
    for (int c = 0; c < nc; c++) {
      auto one = C->get_cell(c);
      for (int r = 0; r < nrow; r++)
        for (int q = 0; q < ncol; q++) {
          const T x = want[c][q * nrow + r];
          MC_CHECK(all[c]->at(r, q) == x, "cell ", c, " (", r, ",", q, ") is ",
                   all[c]->at(r, q), " expected ", x);
          MC_CHECK(one->at(r, q) == x && C->get_value(c, r, q) == x,
                   "get_cell/get_value disagree");
        }
    }
    if (kind >= 3)
      for (auto &p : snapshot(*g)) {
        const INT id = p.i["ID"][0];
        if (sub && id % 2 == 0) {
          MC_CHECK(p.i["X"][0] == 0, "particle outside the sub group written");
          continue;
        }
        T s = 0;
        for (int r = 0; r < nrow; r++)
          for (int q = 0; q < ncol; q++)
            s += want[p.cell][q * nrow + r] * (1 + r + 2 * q);
        MC_CHECK(p.i["X"][0] == (kind == 3 ? (INT)s : 1), "kernel output ",
                 p.i["X"][0]);
      }
    // single cell and single value setters leave everything else alone
    auto d = std::make_shared<CellDataT<T>>(w.target, nrow, ncol);
    for (int r = 0; r < nrow; r++)
      for (int q = 0; q < ncol; q++)
        want[nc - 1][q * nrow + r] = d->at(r, q) = (T)(r * 10 + q);
    C->set_cell(nc - 1, d);
    C->set_value(0, nrow - 1, ncol - 1, (T)4321);
    want[0][(ncol - 1) * nrow + nrow - 1] = (T)4321;
    all = C->get_all_cells();
    for (int c = 0; c < nc; c++)
      for (int r = 0; r < nrow; r++)
        for (int q = 0; q < ncol; q++)
          MC_CHECK(all[c]->at(r, q) == want[c][q * nrow + r], "after set cell ",
                   c, " ", r, ",", q);
    if (ref.size())
      mc::nontrivial();
    mc::outcome_v(want[0]);
    g.reset();
  });
}
static void cdc_int() { cdc<INT>(false); }
static void cdc_real() { cdc<REAL>(false); }
static void cdc_int_sched() { cdc<INT>(true); }

// LocalArray and NDLocalArray
template <typename T> static void arrays(bool schedules) {
  const bool sub = mc::choose(2, "sub");
  const int kind = mc::choose(4, "kind");
  const int local = 1 << mc::choose(2, "local");
  auto occ = schedules ? pick_occ(2, {1, 2}) : pick_occ(3, {0, 1, 2, 6});
  mc_set_item_order(mc::choose(3, "order"));
  if (schedules)
    mc_set_sched_bound(mc_tier ? 3 : 2);
  mc::ranks(1, [&](int) {
    World w({(int)occ.size(), 1});
    set_param(w, "LOOP_LOCAL_SIZE", local);
    std::vector<Part> ref;
    auto g = make_group(w, occ, ref, spec1(), 2);
    const int n = (int)ref.size();
    std::vector<INT> in;
    for (auto &p : ref)
      if (!sub || p.i["ID"][0] % 2)
        in.push_back(p.i["ID"][0]);
    if (kind == 0) { // add: every work item receives a distinct old value
      LocalArray<T> L(w.target, 3, (T)5);
      auto LS = std::make_shared<LocalArray<T>>(w.target, 2);
      LS->fill((T)-1);
      run(sub, g,
          [=](auto ID, auto X, auto A, auto B) {
            X.at(0) = (INT)A.fetch_add(0, (T)1);
            A.fetch_add(1, (T)ID.at(0));
            A.fetch_add(2, (T)-2);
            B.fetch_add(ID.at(0) % 2, (T)3);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("X")),
          Access::add(L), Access::add(LS));
      auto v = L.get();
      auto u = LS->get();
      T sum = 5, o0 = -1, o1 = -1;
      for (INT id : in) {
        sum += (T)id;
        (id % 2 ? o1 : o0) += 3;
      }
      MC_CHECK(v[0] == 5 + (T)in.size(), "add total ", v[0]);
      MC_CHECK(v[1] == sum && v[2] == 5 - 2 * (T)in.size(), "add sums");
      MC_CHECK(u[0] == o0 && u[1] == o1, "indexed add");
      std::set<INT> seen;
      for (auto &p : snapshot(*g)) {
        const INT id = p.i["ID"][0];
        if (sub && id % 2 == 0)
          continue;
        const INT x = p.i["X"][0];
        MC_CHECK(x >= 5 && x < 5 + (INT)in.size() && seen.insert(x).second,
                 "fetch_add returned ", x, " to particle ", id);
      }
    } else if (kind == 1) { // gather and scatter
      std::vector<T> d;
      for (int k = 0; k < n; k++)
        d.push_back((T)val(k, 9));
      LocalArray<T> R(w.target, d);
      LocalArray<T> W(w.target, n, (T)-9);
      run(sub, g,
          [=](auto ID, auto A, auto B) {
            B.at(n - 1 - ID.at(0)) = A.at(ID.at(0)) * 2;
          },
          Access::read(Sym<INT>("ID")), Access::read(R), Access::write(W));
      auto v = W.get();
      MC_CHECK((int)v.size() == n && (int)R.get().size() == n, "size");
      for (int k = 0; k < n; k++) {
        const int id = n - 1 - k;
        MC_CHECK(v[k] == (sub && id % 2 == 0 ? (T)-9 : d[id] * 2),
                 "written element ", k);
      }
      MC_CHECK(R.get() == d, "read-only array changed");
      W.set(d);
      MC_CHECK(W.get() == d, "set then get");
      W.fill((T)3);
      MC_CHECK(W.get() == std::vector<T>(n, (T)3), "fill");
    } else if (kind == 2) {
      auto N2 = std::make_shared<NDLocalArray<T, 2>>(w.target, 2, 3);
      N2->fill((T)1);
      run(sub, g,
          [=](auto ID, auto X, auto A) {
            X.at(0) = (INT)A.fetch_add(ID.at(0) % 2, ID.at(0) % 3, (T)1);
          },
          Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("X")),
          Access::add(N2));
      std::vector<T> want(6, 1);
      for (INT id : in)
        want[(id % 2) * 3 + id % 3] += 1;
      MC_CHECK(N2->get() == want, "2D array add");
      std::set<std::array<INT, 3>> seen;
      for (auto &p : snapshot(*g)) {
        const INT id = p.i["ID"][0];
        if (!(sub && id % 2 == 0))
          MC_CHECK(seen.insert({id % 2, id % 3, p.i["X"][0]}).second,
                   "2D fetch_add repeated an old value");
      }
    } else {
      auto N3 = std::make_shared<NDLocalArray<T, 3>>(w.target, 2, n + 1, 2);
      auto O3 = std::make_shared<NDLocalArray<T, 3>>(w.target, 2, n + 1, 2);
      std::vector<T> d;
      for (int k = 0; k < 4 * (n + 1); k++)
        d.push_back((T)val(k, 3));
      N3->set(d);
      O3->fill((T)0);
      run(sub, g,
          [=](auto ID, auto A, auto B) {
            for (int a = 0; a < 2; a++)
              for (int b = 0; b < 2; b++)
                B.at(b, ID.at(0), a) = A.at(a, ID.at(0) + 1, b);
          },
          Access::read(Sym<INT>("ID")), Access::read(N3), Access::write(O3));
      std::vector<T> want(d.size(), 0);
      for (INT id : in)
        for (int a = 0; a < 2; a++)
          for (int b = 0; b < 2; b++)
            want[(b * (n + 1) + id) * 2 + a] = d[(a * (n + 1) + id + 1) * 2 + b];
      MC_CHECK(O3->get() == want, "3D array indexing");
      MC_CHECK(N3->get() == d, "read-only array changed");
    }
    if (in.size())
      mc::nontrivial();
    mc::outcome(in.size());
    g.reset();
  });
}
static void arrays_int() { arrays<INT>(false); }
static void arrays_real() { arrays<REAL>(false); }
static void arrays_int_sched() { arrays<INT>(true); }

// GlobalArray over several ranks: sums over all ranks, accumulates over loops
template <typename T> static void global(int nr, bool sched) {
  auto occ = pick_occ(nr, {0, 1, 3});
  const bool sub = mc::choose(2, "sub");
  const int size = 1 + mc::choose(3, "size");
  const int cellwise = sched ? 0 : mc::choose(2, "cellwise");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  if (sched)
    mc_set_sched_bound(mc_tier ? 2 : 1);
  mc::ranks(nr, [&](int rank) {
    World w({2 * nr, 1});
    std::vector<Part> ref;
    auto g = make_group(w, {occ[rank], occ[rank] / 2}, ref, spec1(), 2,
                        rank * 10);
    auto G = std::make_shared<GlobalArray<T>>(w.target, size, (T)2);
    std::vector<T> want(size, 2);
    auto k = [=](auto ID, auto A) {
      for (int c = 0; c < size; c++)
        A.add(c, (T)(ID.at(0) + c));
    };
    for (int rep = 0; rep < 2; rep++) {
      if (cellwise && !sub) {
        auto L = particle_loop(pg(g), k, Access::read(Sym<INT>("ID")),
                               Access::add(G));
        for (int c = 0; c < 2; c++)
          L->execute(c);
      } else
        run(sub, g, k, Access::read(Sym<INT>("ID")), Access::add(G));
      for (int r = 0; r < nr; r++)
        for (int q = 0; q < occ[r] + occ[r] / 2; q++) {
          const INT id = r * 10 + q;
          if (!sub || id % 2)
            for (int c = 0; c < size; c++)
              want[c] += (T)(id + c);
        }
      auto v = G->get();
      for (int c = 0; c < size; c++)
        MC_CHECK(v[c] == want[c], "global array element ", c, " is ", v[c],
                 " expected ", want[c], " repetition ", rep);
    }
    // read access sees the reduced values on every rank
    particle_loop(
        pg(g), [=](auto X, auto A) { X.at(0) = (INT)A.at(size - 1); },
        Access::write(Sym<INT>("X")), Access::read(G))
        ->execute();
    for (auto &p : snapshot(*g))
      MC_CHECK(p.i["X"][0] == (INT)want[size - 1], "read access to global array");
    G->fill((T)7);
    MC_CHECK(G->get() == std::vector<T>(size, (T)7), "fill");
    mc::nontrivial();
    mc::outcome_v(want);
    g.reset();
  });
}
static void global2() { global<REAL>(2, false); }
static void global3() { global<INT>(3, false); }
static void global2s() { global<INT>(2, true); }

// Local memory: private to the particle, right size
static void local_memory() {
  const bool sub = mc::choose(2, "sub");
  const int local = 1 << mc::choose(3, "local");
  const int s0 = 1 + mc::choose(3, "size0"), s1 = 1 + mc::choose(3, "size1");
  const bool tight = mc::choose(2, "tight");
  auto occ = pick_occ(2, {1, 3, 7});
  mc_set_item_order(mc::choose(3, "order"));
  if (tight)
    mc_device()->local_mem_size = 2 * (s0 * 8 + s1 * 4) + 3;
  mc::ranks(1, [&](int) {
    World w({2, 1});
    set_param(w, "LOOP_LOCAL_SIZE", local);
    std::vector<Part> ref;
    auto g = make_group(w, occ, ref, spec1(), 2);
    auto B = std::make_shared<LocalMemoryBlock<INT>>(s0);
    auto I = std::make_shared<LocalMemoryInterlaced<int>>(s1);
    LocalArray<INT> turn(w.target, 1, 0);
    run(sub, g,
        [=](auto ID, auto X, auto b, auto i, auto t) {
          for (int k = 0; k < s0; k++)
            b.at(k) = ID.at(0) * 100 + k;
          for (int k = 0; k < s1; k++)
            i.at(k) = ID.at(0) * 50 + k;
          X.at(5) = t.fetch_add(0, 1); // lets other work items run in between
          INT a = 0, c = 0;
          for (int k = 0; k < s0; k++)
            a += b.at(k) * (k + 1);
          for (int k = 0; k < s1; k++)
            c += i.at(k) * (k + 1);
          X.at(0) = a;
          X.at(1) = c;
        },
        Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("X")),
        Access::write(B), Access::write(I), Access::add(turn));
    for (auto &p : snapshot(*g)) {
      const INT id = p.i["ID"][0];
      if (sub && id % 2 == 0)
        continue;
      INT a = 0, c = 0;
      for (int k = 0; k < s0; k++)
        a += (id * 100 + k) * (k + 1);
      for (int k = 0; k < s1; k++)
        c += (id * 50 + k) * (k + 1);
      MC_CHECK(p.i["X"][0] == a, "block local memory of ", id);
      MC_CHECK(p.i["X"][1] == c, "interlaced local memory of ", id);
    }
    mc::nontrivial();
    mc::outcome(turn.get().at(0));
    g.reset();
  });
}

// SymVector, particle data access and CellInfoNPart
static void syms() {
  const bool sub = mc::choose(2, "sub");
  const int perm = mc::choose(6, "perm");
  const int again = mc::choose(3, "again");
  auto occ = pick_occ(3, {0, 1, 4});
  mc::ranks(1, [&](int) {
    World w({3, 1});
    set_param(w, "LOOP_LOCAL_SIZE", 2);
    std::vector<Part> ref;
    auto g = make_group(w, occ, ref, spec1(), 2);
    std::vector<Sym<INT>> s = {Sym<INT>("A"), Sym<INT>("ID"),
                               Sym<INT>("CELL_ID")};
    std::vector<int> ncomp = {2, 1, 1}, order = {0, 1, 2};
    for (int k = 0; k < perm; k++)
      std::next_permutation(order.begin(), order.end());
    std::vector<Sym<INT>> so;
    for (int k : order)
      so.push_back(s[k]);
    int ai = 0, ii = 0, ci = 0;
    for (int k = 0; k < 3; k++)
      (order[k] == 0 ? ai : order[k] == 1 ? ii : ci) = k;
    for (int rep = 0; rep < 2; rep++) {
      auto SV = std::make_shared<SymVector<INT>>(pg(g), so);
      auto SW = std::make_shared<SymVector<INT>>(
          pg(g), std::vector<Sym<INT>>{Sym<INT>("X"), Sym<INT>("A")});
      run(sub, g,
          [=](auto S, auto T, auto IX, auto NP, auto V) {
            T.at(0, 0) = S.at(ai, 1);
            T.at(0, IX, 1) = S.at(ii, IX, 0) + rep;
            T.at(0, IX.cell, IX.layer, 2) = S.at(ci, IX.cell, IX.layer, 0);
            T.at(0, 3) = NP.get();
            T.at(1, 0) = S.at(ii, 0) * 3;
            V.at(2) = V[0] + V.at(1);
          },
          Access::read(SV), Access::write(SW),
          Access::read(ParticleLoopIndex{}), Access::read(CellInfoNPart{}),
          Access::write(Sym<REAL>("V")));
      std::map<INT, INT> np;
      for (auto &p : ref)
        if (!sub || p.i["ID"][0] % 2)
          np[p.cell]++;
      for (auto &p : ref) {
        const INT id = p.i["ID"][0];
        if (sub && id % 2 == 0)
          continue;
        p.i["X"][0] = p.i["A"][1];
        p.i["X"][1] = id + rep;
        p.i["X"][2] = p.cell;
        p.i["X"][3] = np[p.cell];
        p.i["A"][0] = id * 3;
        p.r["V"][2] = p.r["V"][0] + p.r["V"][1];
      }
      compare(snapshot(*g), ref, {"NESO_MPI_RANK"}, "sym vector");
      // invalidate cached pointers in different ways, then use them again
      if (again == 1) {
        g->add_particle_dat(Sym<INT>("AA"), 1);
        for (auto &p : ref)
          p.i["AA"] = {0};
        run(false, g, [=](auto X) { X.at(0) = 0; },
            Access::write(Sym<INT>("AA")));
      } else if (again == 2) {
        std::vector<Part> more;
        for (int k = 0; k < 40; k++) {
          Part p = base_part(2, 100 + (int)ref.size() + k, k % 3);
          p.i["X"] = std::vector<INT>(6, 0);
          more.push_back(p);
        }
        g->add_particles_local(to_set(more, spec1()));
        ref.insert(ref.end(), more.begin(), more.end());
      }
    }
    if (ref.size())
      mc::nontrivial();
    hash_state(ref);
    g.reset();
  });
}

// Compare-and-swap forms of atomic min/max agree with the plain ones
static void cas() {
  const int n = 2 + mc::choose(2, "items");
  const int op = mc::choose(2, "op");
  std::vector<INT> v;
  for (int k = 0; k < n; k++)
    v.push_back((INT)mc::choose(3, "value") - 1);
  const INT init =
      std::vector<INT>{0, std::numeric_limits<INT>::max(),
                       std::numeric_limits<INT>::lowest(),
                       1}[mc::choose(4, "init")];
  mc_set_sched_bound(mc_tier ? 4 : 3);
  mc::ranks(1, [&](int) {
    auto st = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    {
      BufferDevice<INT> in(st, v), x(st, std::vector<INT>{init}),
          old(st, std::vector<INT>(n, 0));
      INT *pi = in.ptr, *px = x.ptr, *po = old.ptr;
      st->queue
          .parallel_for(sycl::range<1>(n),
                        [=](sycl::id<1> k) {
                          po[k] = op ? atomic_fetch_max_cas_strong(px, pi[k])
                                     : atomic_fetch_min_cas_strong(px, pi[k]);
                        })
          .wait_and_throw();
      INT want = init;
      for (INT y : v)
        want = op ? std::max(want, y) : std::min(want, y);
      MC_CHECK(x.get().at(0) == want, "atomic ", op ? "max" : "min", " gave ",
               x.get().at(0), " expected ", want);
      mc::outcome_v(old.get());
      mc::nontrivial();
    }
    st->free();
  });
}

const mc_scenario mc_scenarios[] = {
    {"cell_dat_const_int", cdc_int},   {"cell_dat_const_real", cdc_real},
    {"cell_dat_const_schedules", cdc_int_sched},
    {"arrays_int", arrays_int},        {"arrays_real", arrays_real},
    {"arrays_schedules", arrays_int_sched},
    {"global_2_ranks", global2},       {"global_3_ranks", global3},
    {"global_schedules", global2s},    {"local_memory", local_memory},
    {"sym_vectors", syms},             {"cas_min_max", cas},
};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
