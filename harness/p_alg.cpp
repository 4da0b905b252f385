// The device algorithms compute what their sequential definition says, for
// every extent, work group shape and schedule.
#include "model.hpp"
using namespace H;

static const size_t LOCALS[] = {1, 2, 4, 16};
static INT val(int k) { return (INT)((k * 7 + 3) % 11) - 4; }

// ---- scans -----------------------------------------------------------------
template <typename T> static void scan_t(int variant, int n, World &w) {
  // two rounds: the second reuses whatever scratch memory the first returned
  for (int round = 0; round < 2; round++) {
    std::vector<T> src;
    for (int k = 0; k < n; k++)
      src.push_back((T)val(k + 5 * round));
    std::vector<T> s2 = src;
    s2.push_back(99);
    BufferDevice<T> ds(w.target, s2), dd(w.target, std::vector<T>(n + 2, -77));
    if (variant == 0)
      joint_exclusive_scan(w.target, n, ds.ptr, dd.ptr).wait_and_throw();
    else if (variant == 1)
      joint_exclusive_scan_blocking(w.target, n, ds.ptr, dd.ptr);
    else {
      const size_t na = get_joint_exclusive_scan_aux_array_size(w.target, n);
      BufferDevice<T> da(w.target, std::vector<T>(na + 1, -55));
      joint_exclusive_scan(w.target, n, da.ptr, ds.ptr, dd.ptr)
          .wait_and_throw();
      MC_CHECK(da.get()[na] == -55, "auxiliary array overrun");
    }
    auto v = dd.get();
    T t = 0;
    for (int k = 0; k < n; k++) {
      MC_CHECK(v[k] == t, "scan entry ", k, " is ", v[k], " not ", t);
      t += src[k];
    }
    MC_CHECK(v[n] == -77 && v[n + 1] == -77, "written past the end");
    MC_CHECK(ds.get() == s2, "source modified");
    mc::outcome_v(v);
    if (n > 1)
      mc::nontrivial();
  }
}
static void scan() {
  const int variant = mc::choose(3, "variant");
  const int n = mc::choose(mc_tier ? 20 : 12, "n");
  const int ls = mc::choose(3, "local size");
  const int cu = 1 + mc::choose(4, "compute units");
  const int type = mc::choose(2, "type");
  mc_set_sched_bound(mc_tier ? 1 : 0);
  mc_set_item_order(1);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    set_param(w, "LOOP_LOCAL_SIZE", LOCALS[ls]);
    set_param(w, "MAX_COMPUTE_UNITS", cu);
    if (type)
      scan_t<int>(variant, n, w);
    else
      scan_t<INT>(variant, n, w);
  });
}
// Many arrays at once.
template <typename T> static void scan_n_t(int variant, std::vector<int> sz,
                                           int gap, World &w) {
  const int N = (int)sz.size();
  std::vector<T> sizes(sz.begin(), sz.end()), offs;
  int o = gap;
  for (int k = 0; k < N; k++) {
    offs.push_back(o);
    o += sz[k] + gap;
  }
  std::vector<T> src;
  for (int k = 0; k < o + 1; k++)
    src.push_back((T)val(k));
  BufferDevice<T> ds(w.target, src), dd(w.target, std::vector<T>(o + 1, -77)),
      dz(w.target, sizes), dof(w.target, offs),
      dsum(w.target, std::vector<T>(N + 1, -66));
  if (variant == 0)
    joint_exclusive_scan_n(w.target, N, dz.ptr, dof.ptr, ds.ptr, dd.ptr)
        .wait_and_throw();
  else if (variant == 1)
    joint_inclusive_scan_n(w.target, N, dz.ptr, dof.ptr, ds.ptr, dd.ptr)
        .wait_and_throw();
  else
    joint_exclusive_scan_n_sum(w.target, N, dz.ptr, dof.ptr, ds.ptr, dd.ptr,
                               dsum.ptr)
        .wait_and_throw();
  std::vector<T> want(o + 1, -77), ws(N + 1, -66);
  for (int k = 0; k < N; k++) {
    T t = 0;
    for (int j = 0; j < sz[k]; j++) {
      if (variant == 1)
        t += src[offs[k] + j];
      want[offs[k] + j] = t;
      if (variant != 1)
        t += src[offs[k] + j];
    }
    if (variant == 2)
      ws[k] = t;
  }
  auto v = dd.get();
  for (size_t k = 0; k < v.size(); k++)
    MC_CHECK(v[k] == want[k], "entry ", k, " is ", v[k], " not ", want[k]);
  MC_CHECK(dsum.get() == ws, "sums");
  MC_CHECK(ds.get() == src, "source modified");
  mc::outcome_v(v);
  mc::nontrivial();
}
static void scan_n() {
  const int variant = mc::choose(4, "variant");
  const int N = mc::choose(4, "arrays");
  const int lim = mc_tier ? 6 : 4;
  std::vector<int> sz;
  if (variant == 3) {
    const int m = mc::choose(lim + 3, "m");
    for (int k = 0; k < N; k++)
      sz.push_back(m);
  } else
    for (int k = 0; k < N; k++)
      sz.push_back(mc::choose(lim, "size"));
  const int gap = variant == 3 ? 0 : mc::choose(2, "gap");
  const int ls = mc::choose(3, "local size");
  const int type = mc::choose(2, "type");
  mc_set_sched_bound(0);
  mc_set_item_order(1);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    set_param(w, "LOOP_LOCAL_SIZE", LOCALS[ls]);
    if (variant < 3) {
      if (type)
        scan_n_t<int>(variant, sz, gap, w);
      else
        scan_n_t<INT>(variant, sz, gap, w);
      return;
    }
    const int M = N ? sz[0] : 2;
    std::vector<INT> src, want;
    for (int k = 0; k < N; k++) {
      INT t = 0;
      for (int j = 0; j < M; j++) {
        src.push_back(val(k * M + j));
        want.push_back(t);
        t += src.back();
      }
    }
    src.push_back(5);
    want.push_back(-77);
    BufferDevice<INT> ds(w.target, src),
        dd(w.target, std::vector<INT>(src.size(), -77));
    joint_exclusive_scan_n(w.target, (size_t)N, (size_t)M, ds.ptr, dd.ptr)
        .wait_and_throw();
    MC_CHECK(dd.get() == want, "scan of equal arrays");
    mc::nontrivial();
  });
}

// ---- transpose, reductions, sort -------------------------------------------
static void transpose() {
  const int lim = mc_tier ? 10 : 6;
  const int r = mc::choose(lim, "rows"), c = mc::choose(lim, "cols");
  const int ls = mc::choose(4, "local size");
  mc_set_sched_bound(0);
  mc_set_item_order(1);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    set_param(w, "LOOP_LOCAL_SIZE", LOCALS[ls]);
    std::vector<REAL> src;
    for (int k = 0; k < r * c; k++)
      src.push_back(k + 0.25);
    src.push_back(-3);
    BufferDevice<REAL> ds(w.target, src),
        dd(w.target, std::vector<REAL>(r * c + 1, -77));
    matrix_transpose(w.target, r, c, ds.ptr, dd.ptr).wait_and_throw();
    auto v = dd.get();
    for (int i = 0; i < r; i++)
      for (int j = 0; j < c; j++)
        MC_CHECK(v[j * r + i] == src[i * c + j], "entry ", i, ",", j, " of ", r,
                 "x", c);
    MC_CHECK(v[r * c] == -77, "written past the end");
    mc::outcome_v(v);
    mc::nontrivial();
  });
}
template <typename T, typename OP> static T fold(const std::vector<T> &v, OP op,
                                                 T start) {
  for (auto x : v)
    start = op(start, x);
  return start;
}
template <typename T, typename OP>
static void red_t(World &w, const std::vector<T> &v, OP op, T id) {
  std::vector<T> v2 = v;
  v2.push_back((T)1000);
  v2.push_back((T)-1000);
  BufferDevice<T> ds(w.target, v2), dd(w.target, std::vector<T>(2, (T)-77));
  reduce_values(w.target, v.size(), ds.ptr, op, dd.ptr).wait_and_throw();
  MC_CHECK(dd.get()[0] == fold<T>(v, op, id), "reduction of ", v.size(),
           " values: ", dd.get()[0]);
  MC_CHECK(dd.get()[1] == (T)-77, "written past the end");
  // combining values one by one
  BufferDevice<T> da(w.target, std::vector<T>(1, id));
  auto *p = da.ptr;
  auto *s = ds.ptr;
  if (v.size())
    w.target->queue
        .parallel_for(sycl::range<1>(v.size()),
                      [=](sycl::id<1> k) { Kernel::atomic_reduce(op, p, s[k]); })
        .wait_and_throw();
  MC_CHECK(da.get()[0] == fold<T>(v, op, id), "atomic reduction of ", v.size(),
           " values: ", da.get()[0]);
  MC_CHECK(Kernel::get_identity(op) == id, "identity");
}
template <typename T> static void red_o(World &w, int op, std::vector<T> v) {
  if (op == 0)
    red_t<T>(w, v, Kernel::plus<T>{}, (T)0);
  else if (op == 1)
    red_t<T>(w, v, Kernel::minimum<T>{}, std::numeric_limits<T>::max());
  else
    red_t<T>(w, v, Kernel::maximum<T>{}, std::numeric_limits<T>::lowest());
}
static void reductions() {
  const int type = mc::choose(3, "type");
  const int op = mc::choose(3, "op");
  const int n = mc::choose(mc_tier ? 12 : 8, "n");
  const int shift = mc::choose(3, "shift"); // all positive, mixed, negative
  const int ls = mc::choose(3, "local size");
  mc_set_sched_bound(n <= 4 ? 2 : 0);
  mc_set_item_order(1);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    set_param(w, "LOOP_LOCAL_SIZE", LOCALS[ls]);
    std::vector<INT> v;
    for (int k = 0; k < n; k++)
      v.push_back(val(k) + (shift - 1) * 20);
    if (type == 0)
      red_o<INT>(w, op, v);
    else if (type == 1)
      red_o<REAL>(w, op, std::vector<REAL>(v.begin(), v.end()));
    else
      red_o<int>(w, op, std::vector<int>(v.begin(), v.end()));
    mc::outcome(op);
    mc::nontrivial();
  });
}
// A compare and exchange network that sorts every sequence of zeros and ones
// sorts every sequence.
static void sort8() {
  const int bits = mc::choose(256, "zeros and ones");
  const int groups = 1 + mc::choose(2, "blocks");
  mc_set_sched_bound(0);
  mc_set_item_order(1);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    const int n = 8 * groups;
    std::vector<int> t;
    for (int k = 0; k < n; k++)
      t.push_back(k < 8 ? (bits >> k) & 1 : (int)mix(k + bits) % 5);
    BufferDevice<int> d(w.target, t);
    int *p = d.ptr;
    w.target->queue
        .submit([&](sycl::handler &cgh) {
          sycl::local_accessor<int> la(sycl::range<1>(n), cgh);
          cgh.parallel_for(
              sycl::nd_range<1>(sycl::range<1>(n), sycl::range<1>(n)),
              [=](sycl::nd_item<1> idx) {
                const size_t k = idx.get_local_linear_id();
                la[k] = p[k];
                Kernel::bitonic8(idx.get_group(), &la[(k / 8) * 8]);
                p[k] = la[k];
              });
        })
        .wait_and_throw();
    auto v = d.get();
    for (int b = 0; b < groups; b++) {
      std::sort(t.begin() + 8 * b, t.begin() + 8 * b + 8);
      for (int k = 0; k < 8; k++)
        MC_CHECK(v[8 * b + k] == t[8 * b + k], "sorted entry ", k);
    }
    mc::outcome_v(v);
    mc::nontrivial();
  });
}

// ---- cell wise -------------------------------------------------------------
static const int NC = 2;
static ParticleSpec alg_spec() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("A"), 6),
                      ParticleProp(Sym<REAL>("V"), 6),
                      ParticleProp(Sym<INT>("B"), 2),
                      ParticleProp(Sym<REAL>("W"), 2)};
}
static Part mkpart(int id, int cell) {
  Part p;
  p.cell = cell;
  p.r["P"] = {cell + 0.5, 0.5};
  p.i["ID"] = {id};
  p.i["CELL_ID"] = {cell};
  for (int c = 0; c < 6; c++) {
    p.i["A"].push_back(val(id * 3 + c) - 8);
    p.r["V"].push_back((REAL)val(id * 2 + c * 5) * 0.5 - 9);
  }
  p.i["B"] = {100 + id, 200 + id};
  p.r["W"] = {100.5 + id, 200.5 + id};
  return p;
}
static TGP mkgroup(World &w, const std::vector<int> &occ,
                   std::vector<Part> &ref) {
  auto g = std::make_shared<TG>(w.domain, *new ParticleSpec(alg_spec()),
                                w.target);
  ref.clear();
  for (size_t c = 0; c < occ.size(); c++)
    for (int k = 0; k < occ[c]; k++)
      ref.push_back(mkpart((int)ref.size(), (int)c));
  g->add_particles_local(to_set(ref, alg_spec()));
  return g;
}
// 0 group, 1 sub group of even ids, 2 entire sub group, 3 static sub group of
// ids not divisible by three, 4 empty sub group
static bool in_sub(int kind, INT id) {
  return kind == 0 || kind == 2 || (kind == 1 && id % 2 == 0) ||
         (kind == 3 && id % 3 != 0);
}
static ParticleSubGroupSharedPtr mksub(TGP g, int kind) {
  if (kind == 2)
    return particle_sub_group(pg(g));
  if (kind == 1)
    return particle_sub_group(
        pg(g), [](auto ID) { return ID[0] % 2 == 0; },
        Access::read(Sym<INT>("ID")));
  if (kind == 3)
    return static_particle_sub_group(
        pg(g), [](auto ID) { return ID[0] % 3 != 0; },
        Access::read(Sym<INT>("ID")));
  return particle_sub_group(
      pg(g), [](auto ID) { return ID[0] < 0; }, Access::read(Sym<INT>("ID")));
}
template <typename T> static std::vector<T> comp(const Part &p);
template <> std::vector<INT> comp<INT>(const Part &p) { return p.i.at("A"); }
template <> std::vector<REAL> comp<REAL>(const Part &p) { return p.r.at("V"); }
template <typename T> static Sym<T> sym_of() {
  if constexpr (std::is_same_v<T, INT>)
    return Sym<INT>("A");
  else
    return Sym<REAL>("V");
}

template <typename T, typename OP>
static void cell_red(World &w, TGP g, int kind, int shape, int which, OP op,
                     const std::vector<Part> &ref) {
  static const int SR[] = {1, 6, 1, 2, 3, 2, 3}, SC[] = {1, 1, 6, 3, 2, 2, 3};
  const int nr = SR[shape], nl = SC[shape];
  auto cdc = std::make_shared<CellDatConst<T>>(w.target, NC, nr, nl);
  std::vector<T> want(NC * nr * nl);
  for (int c = 0; c < NC; c++)
    for (int q = 0; q < nl; q++)
      for (int r = 0; r < nr; r++) {
        // some starting values dominate the particles, some do not
        T v = (T)(((c + q + r) % 2) ? -3 : -40);
        want[(c * nl + q) * nr + r] = v;
        cdc->set_value(c, r, q, v);
      }
  auto at = [&](int c, int r, int q) -> T & {
    return want[(c * nl + q) * nr + r];
  };
  auto subs = [&](auto f) {
    if (kind == 0)
      f(pg(g));
    else
      f(mksub(g, kind));
  };
  if (which < 2) { // one component
    const int row = which ? nr - 1 : 0, col = which ? 0 : nl - 1;
    const int k = which ? 5 : 1;
    subs([&](auto s) {
      reduce_dat_component_cellwise(s, sym_of<T>(), k, cdc, row, col, op);
    });
    for (auto &p : ref)
      if (in_sub(kind, p.i.at("ID")[0]))
        at(p.cell, row, col) = op(at(p.cell, row, col), comp<T>(p)[k]);
  } else {
    if (nr * nl != 6) { // refused
      mc_expect_abort(1);
      const int a0 = mc_abort_count();
      try {
        subs([&](auto s) {
          reduce_dat_components_cellwise(s, sym_of<T>(), cdc, op);
        });
      } catch (mc::Aborted &) {
      }
      mc_expect_abort(0);
      MC_CHECK(mc_abort_count() > a0, "6 components into ", nr, "x", nl,
               " accepted");
      return;
    }
    subs([&](auto s) {
      reduce_dat_components_cellwise(s, sym_of<T>(), cdc, op);
    });
    for (auto &p : ref)
      if (in_sub(kind, p.i.at("ID")[0]))
        for (int k = 0; k < 6; k++) {
          const int r = k / nl, q = k % nl;
          at(p.cell, r, q) = op(at(p.cell, r, q), comp<T>(p)[k]);
        }
  }
  for (int c = 0; c < NC; c++)
    for (int q = 0; q < nl; q++)
      for (int r = 0; r < nr; r++)
        MC_CHECK(cdc->get_value(c, r, q) == at(c, r, q), "cell ", c, " row ", r,
                 " col ", q, ": ", cdc->get_value(c, r, q), " not ",
                 at(c, r, q));
}
static void drop_first(TGP g, std::vector<Part> &ref) {
  if (ref.empty())
    return;
  g->remove_particles(1, std::vector<INT>{ref[0].cell}, std::vector<INT>{0});
  ref.erase(ref.begin());
}
static void cellwise_reduce() {
  const int type = mc::choose(2, "type");
  const int op = mc::choose(3, "op");
  const int kind = mc::choose(5, "group kind");
  const int which = mc::choose(3, "what");
  const int shape = mc::choose(7, "shape");
  const int o0 = mc::choose(4, "occ"), o1 = mc::choose(3, "occ");
  const int ls = mc::choose(2, "local size");
  const int mut = mc::choose(2, "mutation");
  mc_set_sched_bound(0);
  mc_set_item_order(1);
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    set_param(w, "LOOP_LOCAL_SIZE", LOCALS[ls]);
    std::vector<Part> ref;
    auto g = mkgroup(w, {o0, 2 * o1}, ref);
    if (mut)
      drop_first(g, ref);
    auto go = [&](auto t) {
      typedef decltype(t) T;
      if (op == 0)
        cell_red<T>(w, g, kind, shape, which, Kernel::plus<T>{}, ref);
      else if (op == 1)
        cell_red<T>(w, g, kind, shape, which, Kernel::minimum<T>{}, ref);
      else
        cell_red<T>(w, g, kind, shape, which, Kernel::maximum<T>{}, ref);
    };
    if (type)
      go(INT(0));
    else
      go(REAL(0));
    mc::outcome(kind * 3 + op);
    if (ref.size())
      mc::nontrivial();
    g->free();
  });
}
// A sub group kept while the particles change: counts, reductions, broadcasts
// and copies always use the current members.
static void cellwise_history() {
  const int kind = mc::choose(3, "group kind"); // 0, 1, 2
  const int steps = mc_tier ? 4 : 3;
  mc_set_sched_bound(0);
  mc_set_item_order(0);
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    std::vector<Part> ref;
    auto g = mkgroup(w, {2, 3}, ref);
    int nid = (int)ref.size();
    ParticleSubGroupSharedPtr sub = kind ? mksub(g, kind) : nullptr;
    auto with = [&](auto f) {
      if (kind == 0)
        f(pg(g));
      else
        f(sub);
    };
    auto member = [&](const Part &p) { return in_sub(kind, p.i.at("ID")[0]); };
    for (int s = 0; s < steps; s++) {
      switch (mc::choose(6, "op")) {
      case 0: { // occupancies into a corner of a larger dat
        auto cdc = std::make_shared<CellDatConst<INT>>(w.target, NC, 2, 3);
        cdc->fill(-5);
        auto cdi = std::make_shared<CellDatConst<int>>(w.target, NC, 3, 2);
        cdi->fill(-5);
        with([&](auto x) {
          get_npart_cell(x, cdc, 1, 2);
          get_npart_cell(x, cdi, 2, 0);
        });
        for (int c = 0; c < NC; c++) {
          INT n = 0;
          for (auto &p : ref)
            n += p.cell == c && member(p);
          for (int r = 0; r < 3; r++)
            for (int q = 0; q < 3; q++) {
              if (r < 2)
                MC_CHECK(cdc->get_value(c, r, q) ==
                             (r == 1 && q == 2 ? n : -5),
                         "count of cell ", c);
              if (q < 2)
                MC_CHECK(cdi->get_value(c, r, q) ==
                             (r == 2 && q == 0 ? n : -5),
                         "count of cell ", c);
            }
        }
        break;
      }
      case 1: {
        auto cdc = std::make_shared<CellDatConst<INT>>(w.target, NC, 6, 1);
        cdc->fill(7);
        with([&](auto x) {
          reduce_dat_components_cellwise(x, Sym<INT>("A"), cdc,
                                         Kernel::plus<INT>{});
        });
        for (int c = 0; c < NC; c++)
          for (int k = 0; k < 6; k++) {
            INT t = 7;
            for (auto &p : ref)
              if (p.cell == c && member(p))
                t += p.i.at("A")[k];
            MC_CHECK(cdc->get_value(c, k, 0) == t, "sum of cell ", c,
                     " component ", k);
          }
        break;
      }
      case 2: { // one value per cell to every member
        with([&](auto x) {
          cellwise_broadcast(x, Sym<INT>("B"), 1,
                             std::vector<int>{10 + s, 20 + s});
          cellwise_broadcast(x, Sym<REAL>("W"), 0,
                             std::vector<REAL>{1.5 + s, 2.5 + s});
        });
        for (auto &p : ref)
          if (member(p)) {
            p.i["B"][1] = 10 * (p.cell + 1) + s;
            p.r["W"][0] = 1.5 + p.cell + s;
          }
        break;
      }
      case 3:
        drop_first(g, ref);
        break;
      case 4: { // add to either cell
        auto p = mkpart(nid, nid % NC);
        nid++;
        g->add_particles_local(to_set({p}, alg_spec()));
        ref.push_back(p);
        break;
      }
      case 5: { // the property the sub groups select on changes
        particle_loop(
            pg(g), [](auto ID) { ID.at(0) += 1; },
            Access::write(Sym<INT>("ID")))
            ->execute();
        for (auto &p : ref)
          p.i["ID"][0]++;
        nid++;
        break;
      }
      }
      mc::nontrivial();
    }
    // layers within a cell may be permuted: compare as sets
    compare(snapshot(*g), ref, {"NESO_MPI_RANK"}, "after the history");
    hash_state(snapshot(*g));
    sub.reset();
    g->free();
  });
}
// Ephemeral values to and from particle properties.
static void ephemeral_copy() {
  const int o0 = mc::choose(4, "occ"), o1 = mc::choose(4, "occ");
  const int kind = 1 + mc::choose(4, "kind");
  const int same = mc::choose(2, "same name");
  mc_set_sched_bound(0);
  mc_set_item_order(0);
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    std::vector<Part> ref;
    auto g = mkgroup(w, {o0, o1}, ref);
    auto sub = mksub(g, kind);
    Sym<INT> ei(same ? "B" : "EB");
    Sym<REAL> er(same ? "W" : "EW");
    sub->add_ephemeral_dat(ei, 2);
    sub->add_ephemeral_dat(er, 2);
    copy_particle_dat_to_ephemeral_dat(sub, Sym<INT>("B"), ei);
    copy_particle_dat_to_ephemeral_dat(sub, Sym<REAL>("W"), er);
    // change the properties, then the ephemeral copies by a known amount
    particle_loop(
        pg(g),
        [](auto B, auto W) {
          B.at(0) = -1;
          B.at(1) = -2;
          W.at(0) = -3;
          W.at(1) = -4;
        },
        Access::write(Sym<INT>("B")), Access::write(Sym<REAL>("W")))
        ->execute();
    particle_loop(
        sub,
        [](auto B, auto W) {
          B.at_ephemeral(1) += 1000;
          W.at_ephemeral(0) += 2000;
        },
        Access::write(ei), Access::write(er))
        ->execute();
    compare(
        [&] {
          auto v = snapshot(*g);
          return v;
        }(),
        [&] {
          auto v = ref;
          for (auto &p : v) {
            p.i["B"] = {-1, -2};
            p.r["W"] = {-3, -4};
          }
          return v;
        }(),
        {"NESO_MPI_RANK"}, "before copying back");
    copy_ephemeral_dat_to_particle_dat(sub, ei, Sym<INT>("B"));
    copy_ephemeral_dat_to_particle_dat(sub, er, Sym<REAL>("W"));
    for (auto &p : ref) {
      const bool m = in_sub(kind, p.i.at("ID")[0]);
      if (m) {
        p.i["B"][1] += 1000;
        p.r["W"][0] += 2000;
        mc::nontrivial();
      } else {
        p.i["B"] = {-1, -2};
        p.r["W"] = {-3, -4};
      }
    }
    compare(snapshot(*g), ref, {"NESO_MPI_RANK"}, "after copying back");
    hash_state(snapshot(*g));
    sub.reset();
    g->free();
  });
}
// Element wise kernels with single values stretched to the output's shape.
static void element_wise() {
  const int nr = 1 + mc::choose(3, "rows"), nl = 1 + mc::choose(3, "cols");
  const int ba = mc::choose(2, "a single"), bb = mc::choose(2, "b single"),
            bc = mc::choose(2, "c single");
  const int alias = mc::choose(3, "output is an argument");
  if ((alias == 1 && ba && nr * nl > 1) || (alias == 2 && bc && nr * nl > 1))
    mc_discard();
  mc_set_sched_bound(0);
  mc_set_item_order(1);
  mc::ranks(1, [&](int) {
    World w({NC, 1});
    auto mk = [&](auto t, int single, int base) {
      typedef decltype(t) T;
      const int r = single ? 1 : nr, q = single ? 1 : nl;
      auto d = std::make_shared<CellDatConst<T>>(w.target, NC, r, q);
      for (int c = 0; c < NC; c++)
        for (int i = 0; i < r; i++)
          for (int j = 0; j < q; j++)
            d->set_value(c, i, j, (T)(base + 100 * c + 10 * i + j));
      return d;
    };
    auto a = mk(INT(0), ba, 1), c = mk(INT(0), bc, 30000);
    auto b = mk(REAL(0), bb, 2);
    auto out = alias == 1 ? a
                          : (alias == 2 ? c : std::make_shared<CellDatConst<INT>>(
                                                  w.target, NC, nr, nl));
    auto V = [&](int cell, int i, int j, int single, int base) {
      return base + 100 * cell + (single ? 0 : 10 * i + j);
    };
    cell_dat_const_loop_element_wise(
        out,
        [](auto a, auto b, auto c) {
          return a * 3 + (INT)(b * 1000.0) + c * 7;
        },
        a, b, c);
    for (int cell = 0; cell < NC; cell++)
      for (int i = 0; i < nr; i++)
        for (int j = 0; j < nl; j++) {
          const INT want = 3 * V(cell, i, j, ba, 1) +
                           1000 * V(cell, i, j, bb, 2) +
                           7 * V(cell, i, j, bc, 30000);
          MC_CHECK(out->get_value(cell, i, j) == want, "cell ", cell, " entry ",
                   i, ",", j, ": ", out->get_value(cell, i, j), " not ", want);
        }
    mc::outcome(nr * 3 + nl);
    mc::nontrivial();
  });
}

const mc_scenario mc_scenarios[] = {{"scan", scan},
                                    {"scan_n", scan_n},
                                    {"transpose", transpose},
                                    {"reductions", reductions},
                                    {"sort8", sort8},
                                    {"cellwise_reduce", cellwise_reduce},
                                    {"cellwise_history", cellwise_history},
                                    {"ephemeral_copy", ephemeral_copy},
                                    {"element_wise", element_wise}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
