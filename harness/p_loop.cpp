// A particle loop executes its kernel exactly once for every particle of the
// iteration set it was asked for, on that particle's data, and reports the
// position in the iteration set truthfully.
#include "model.hpp"
using namespace H;

static ParticleSpec loop_spec() {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<REAL>("V"), 3),
                      ParticleProp(Sym<INT>("A"), 2),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("N"), 1),
                      ParticleProp(Sym<INT>("X"), 8)};
}

struct Exp { // expected per particle id: is it visited, its loop layer
  bool in = false;
  INT cell, layer, loop_layer;
};

// (cell,layer) of every id in the implementation's current order
static std::vector<Exp> where(TG &g, int n) {
  std::vector<Exp> e(n);
  std::map<INT, INT> row;
  for (auto &p : snapshot(g)) {
    auto &x = e.at(p.i["ID"][0]);
    x.cell = p.cell;
    x.layer = row[p.cell]++;
    x.loop_layer = x.layer;
  }
  return e;
}

// Run one loop and check visits.  make(k) builds the loop from a kernel.
enum { GROUP, DAT, IDAT, WHOLE, SUB, SUBSUB, RED, REDSUB, NKIND };

static void run_all(int kind, std::vector<int> occ, size_t local, size_t nbin,
                    bool async, bool ranges) {
  mc::ranks(1, [&](int) {
    World w({(int)occ.size(), 1});
    set_param(w, "LOOP_LOCAL_SIZE", local);
    set_param(w, "LOOP_NBIN", nbin);
    std::vector<Part> ref;
    auto g = make_group(w, occ, ref, loop_spec(), 2);
    const int n = (int)ref.size(), nc = (int)occ.size();
    ParticleSubGroupSharedPtr sg;
    auto sel = [](INT id) { return id % 3 != 1; };
    if (kind == WHOLE)
      sg = particle_sub_group(pg(g));
    if (kind == SUB || kind == REDSUB || kind == SUBSUB)
      sg = particle_sub_group(
          pg(g), [=](auto ID) { return ID.at(0) % 3 != 1; },
          Access::read(Sym<INT>("ID")));
    if (kind == SUBSUB)
      sg = particle_sub_group(
          sg, [=](auto ID) { return ID.at(0) % 2 == 0; },
          Access::read(Sym<INT>("ID")));
    auto inset = [&](INT id) {
      if (kind == SUB || kind == REDSUB)
        return sel(id);
      if (kind == SUBSUB)
        return sel(id) && id % 2 == 0;
      return true;
    };
    auto cdc =
        std::make_shared<CellDatConst<INT>>(w.target, nc, 1, 1);
    LocalArray<INT> total(w.target, 1, 0);
    auto idx_kernel = [=](auto ID, auto N, auto X, auto IX, auto T) {
      N.at(0) += 1;
      X.at(0) = IX.cell;
      X.at(1) = IX.layer;
      X.at(2) = IX.loop_layer;
      X.at(3) = IX.get_local_linear_index();
      X.at(4) = IX.get_loop_linear_index();
      X.at(5) = IX.get_sub_linear_index();
      X.at(6) = ID.at(0);
      T.fetch_add(0, 1);
    };
    auto cell_kernel = [=](auto N, auto C) {
      N.at(0) += 1;
      C.combine(0, 0, (INT)1);
    };
    ParticleLoopSharedPtr loop;
    auto dn = (*g)[Sym<INT>("N")];
    auto dx = (*g)[Sym<INT>("X")];
    auto did = (*g)[Sym<INT>("ID")];
    auto dp = (*g)[Sym<REAL>("P")];
    switch (kind) {
    case GROUP:
      loop = particle_loop("k", pg(g), idx_kernel, Access::read(Sym<INT>("ID")),
                           Access::write(Sym<INT>("N")),
                           Access::write(Sym<INT>("X")),
                           Access::read(ParticleLoopIndex{}),
                           Access::add(total));
      break;
    case DAT:
      loop = particle_loop("k", dp, idx_kernel, Access::read(did),
                           Access::write(dn), Access::write(dx),
                           Access::read(ParticleLoopIndex{}),
                           Access::add(total));
      break;
    case IDAT:
      loop = particle_loop("k", did, idx_kernel, Access::read(did),
                           Access::write(dn), Access::write(dx),
                           Access::read(ParticleLoopIndex{}),
                           Access::add(total));
      break;
    case WHOLE:
    case SUB:
    case SUBSUB:
      loop = particle_loop("k", sg, idx_kernel, Access::read(Sym<INT>("ID")),
                           Access::write(Sym<INT>("N")),
                           Access::write(Sym<INT>("X")),
                           Access::read(ParticleLoopIndex{}),
                           Access::add(total));
      break;
    case RED:
      loop = particle_loop("k", pg(g), cell_kernel,
                           Access::write(Sym<INT>("N")),
                           Access::reduce(cdc, Kernel::plus<INT>()));
      break;
    case REDSUB:
      loop = particle_loop("k", sg, cell_kernel, Access::write(Sym<INT>("N")),
                           Access::reduce(cdc, Kernel::plus<INT>()));
      break;
    }
    const bool red = kind == RED || kind == REDSUB;
    auto e = where(*g, n);
    // loop layers within the sub group: the order of the sub group's own map
    // is unspecified, so only the set of layers is checked below
    std::vector<INT> count(n, 0);
    auto check = [&](int s, int t, const char *when) {
      auto snap = snapshot(*g);
      std::map<INT, std::set<INT>> loops, subs;
      std::set<INT> linear;
      INT visited = 0, sub_es = 0;
      std::vector<INT> ncell(nc, 0), ncell_all(nc, 0), es(nc + 1, 0),
          esub(nc + 1, 0);
      for (int k = 0; k < n; k++) {
        ncell_all[e[k].cell]++;
        if (inset(k))
          ncell[e[k].cell]++;
      }
      for (int c = 0; c < nc; c++) {
        es[c + 1] = es[c] + ncell_all[c];
        esub[c + 1] = esub[c] + ncell[c];
      }
      for (auto &p : snap) {
        const INT id = p.i["ID"][0];
        const bool in = inset(id) && p.cell >= s && p.cell < t;
        if (in)
          count[id]++;
        MC_CHECK(p.i["N"][0] == count[id], when, " [", s, ",", t,
                 "): particle ", id, " of cell ", p.cell, " layer ",
                 e[id].layer, " visited ", p.i["N"][0], " times, expected ",
                 count[id]);
        if (in && !red) {
          auto &x = p.i["X"];
          MC_CHECK(x[6] == id, when, " kernel saw the data of particle ", x[6],
                   " for particle ", id);
          MC_CHECK(x[0] == e[id].cell && x[1] == e[id].layer, when,
                   " loop index cell,layer ", x[0], ",", x[1], " expected ",
                   e[id].cell, ",", e[id].layer);
          MC_CHECK(x[3] == es[x[0]] + x[1], when, " local linear index");
          MC_CHECK(x[2] >= 0 && x[2] < ncell[x[0]], when, " loop layer ", x[2]);
          MC_CHECK(loops[x[0]].insert(x[2]).second, when,
                   " loop layer repeated");
          if (kind == GROUP || kind == DAT || kind == IDAT || kind == WHOLE)
            MC_CHECK(x[2] == x[1], when, " loop layer of whole group");
          MC_CHECK(x[4] == esub[x[0]] - esub[s] + x[2], when,
                   " loop linear index ", x[4], " expected ",
                   esub[x[0]] - esub[s] + x[2]);
          MC_CHECK(x[5] == esub[x[0]] + x[2], when, " sub linear index");
          visited++;
        }
      }
      if (!red) {
        INT T = total.get().at(0);
        MC_CHECK(T == visited, when, " kernel executed ", T, " times for ",
                 visited, " particles");
        total.fill(0);
      } else {
        for (int c = 0; c < nc; c++) {
          const INT v = cdc->get_value(c, 0, 0);
          const INT want = c >= s && c < t ? ncell[c] : 0;
          MC_CHECK(v == want, when, " [", s, ",", t, "): kernel executed ", v,
                   " times in cell ", c, " holding ", want);
        }
        cdc->fill(0);
      }
    };
    if (red)
      cdc->fill(0);
    if (async) {
      loop->submit();
      loop->wait();
    } else
      loop->execute();
    check(0, nc, "all cells");
    if (ranges) {
      for (int s = 0; s < nc; s++) {
        loop->execute(s);
        check(s, s + 1, "single cell");
        for (int t = s; t <= nc; t++) {
          loop->execute(s, t);
          check(s, t, "cell range");
        }
      }
      // every cell in flight at once
      if (!red) {
        for (int s = nc - 1; s >= 0; s--)
          loop->submit(s);
        loop->wait();
        auto snap = snapshot(*g);
        for (auto &p : snap) {
          const INT id = p.i["ID"][0];
          count[id] += inset(id);
          MC_CHECK(p.i["N"][0] == count[id], "submit cell by cell: particle ",
                   id, " visited ", p.i["N"][0]);
        }
        total.fill(0);
      }
    }
    // again after the occupancies changed: one particle leaves every cell
    std::vector<INT> cells, layers;
    for (int c = 0; c < nc; c++)
      if (occ[c] > 0) {
        cells.push_back(c);
        layers.push_back(0);
      }
    if (cells.size()) {
      std::set<INT> gone;
      for (int k = 0; k < n; k++)
        if (e[k].layer == 0)
          gone.insert(k);
      g->remove_particles((int)cells.size(), cells, layers);
      // keep the oracle's indexing: particles that are gone are not in the set
      auto snap = snapshot(*g);
      std::map<INT, INT> row;
      for (auto &p : snap) {
        const INT id = p.i["ID"][0];
        MC_CHECK(!gone.count(id), "removed particle still present");
        e[id].layer = row[p.cell]++;
      }
      loop->execute();
      for (auto &p : snapshot(*g)) {
        const INT id = p.i["ID"][0];
        count[id] += inset(id);
        MC_CHECK(p.i["N"][0] == count[id],
                 "after removal: particle ", id, " visited ", p.i["N"][0],
                 " expected ", count[id]);
        if (inset(id) && !red)
          MC_CHECK(p.i["X"][1] == e[id].layer && p.i["X"][6] == id,
                   "after removal: loop index");
      }
    }
    if (n)
      mc::nontrivial();
    mc::outcome_v(count);
    loop.reset();
    sg.reset();
    g.reset();
  });
}

static std::vector<int> pick_occ(int nc, const std::vector<int> &vals) {
  std::vector<int> o;
  for (int c = 0; c < nc; c++)
    o.push_back(vals[mc::choose((int)vals.size(), "occupancy")]);
  return o;
}

static void occupancies() {
  const int kind = mc::choose(SUBSUB + 1, "kind");
  const int local = 1 << mc::choose(4, "local");
  const int nbin = 1 + mc::choose(3, "nbin");
  auto occ = mc_tier ? pick_occ(4, {0, 1, 2, 4, 9}) : pick_occ(3, {0, 1, 2, 5, 9});
  run_all(kind, occ, local, nbin, false, true);
}
static void reductions() {
  const int kind = RED + mc::choose(2, "kind");
  const int local = 1 << mc::choose(3, "local");
  const int nbin = 1 + mc::choose(3, "nbin");
  auto occ = mc_tier ? pick_occ(3, {0, 1, 16, 17, 33, 70})
                     : pick_occ(2, {0, 1, 15, 16, 17, 33, 50});
  run_all(kind, occ, local, nbin, false, true);
}
static void many_cells() {
  const int kind = mc::choose(NKIND, "kind");
  const int nc = 1 + mc::choose(9, "cells");
  const int nbin = 1 + mc::choose(mc_tier ? 12 : 6, "nbin");
  const int pat = mc::choose(5, "pattern");
  std::vector<int> occ;
  for (int c = 0; c < nc; c++)
    occ.push_back(pat == 0   ? c % 3
                  : pat == 1 ? 4
                  : pat == 2 ? (c == nc - 1 ? 7 : 0)
                  : pat == 3 ? (c == 0 ? 18 : 3)
                             : 2 + c);
  run_all(kind, occ, 2, nbin, false, false);
}
// large local sizes, the defaults of the library
static void defaults() {
  const int kind = mc::choose(NKIND, "kind");
  auto occ = pick_occ(2, {0, 1, 31, 32, 33, 64, 65});
  run_all(kind, occ, mc::choose(2, "local") ? 32 : 256, 16, false, false);
}
static void schedules() {
  const int kind = mc::choose(NKIND, "kind");
  const int local = 1 << mc::choose(2, "local");
  std::vector<std::vector<int>> o = {{1, 2}, {3, 0, 1}, {2, 2}};
  auto occ = o[mc::choose((int)o.size(), "occ")];
  mc_set_item_order(mc::choose(3, "order"));
  mc_set_sched_bound(mc_tier ? 2 : 1);
  run_all(kind, occ, local, 2, true, false);
}

// Raw iteration sets, including several particles per work item.
static void raw() {
  const int nc = 1 + mc::choose(3, "cells");
  auto occ = pick_occ(nc, {0, 1, 3, 8, 13});
  const int s = mc::choose(nc, "start"), t = s + mc::choose(nc - s + 1, "len");
  const int nbin = 1 + mc::choose(3, "nbin");
  const size_t local = 1 << mc::choose(3, "local");
  const size_t stride = 1 + mc::choose(mc_tier ? 5 : 4, "stride");
  const int bytes = mc::choose(2, "bytes") ? 1024 : 0;
  mc_device()->local_mem_size = 16384;
  mc::ranks(1, [&](int) {
    auto st = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    {
      BufferDeviceHost<int> np(st, nc);
      for (int c = 0; c < nc; c++)
        np.h_buffer.ptr[c] = occ[c];
      np.host_to_device();
      ParticleLoopImplementation::ParticleLoopBlockIterationSet is(
          st, nc, np.h_buffer.ptr, np.d_buffer.ptr);
      auto v = is.get_generic(s, t, nbin, local, bytes, stride);
      const int M = 64;
      BufferDeviceHost<int> blk(st, nc * M), inter(st, nc * M);
      for (int k = 0; k < nc * M; k++)
        blk.h_buffer.ptr[k] = inter.h_buffer.ptr[k] = 0;
      blk.host_to_device();
      inter.host_to_device();
      int *pb = blk.d_buffer.ptr, *pi = inter.d_buffer.ptr;
      for (auto &b : v) {
        auto bd = b.block_device;
        const bool chk = b.layer_bounds_check_required;
        MC_CHECK(b.local_size <= local, "local size grew");
        MC_CHECK(b.local_size * stride * bytes <= 16384,
                 "local memory exceeded");
        st->queue
            .submit([&](sycl::handler &cgh) {
              cgh.parallel_for<>(b.loop_iteration_set, [=](sycl::nd_item<2> ix) {
                std::size_t cell, block;
                bd.stride_get_cell_block(ix, &cell, &block);
                if (!chk || bd.stride_work_item_required(cell, block)) {
                  const size_t m = bd.stride_local_index_bound(cell, block);
                  for (size_t k = 0; k < m; k++)
                    pb[cell * M + block * stride + k]++;
                }
                for (size_t k = 0; k < stride; k++) {
                  std::size_t layer;
                  bd.get_interlaced_cell_layer(ix, k, &cell, &layer);
                  if (!chk || bd.work_item_required(cell, layer))
                    pi[cell * M + layer]++;
                }
              });
            })
            .wait_and_throw();
      }
      blk.device_to_host();
      inter.device_to_host();
      for (int c = 0; c < nc; c++)
        for (int k = 0; k < M; k++) {
          const int want = c >= s && c < t && k < occ[c];
          MC_CHECK(blk.h_buffer.ptr[c * M + k] == want,
                   "blocked: cell ", c, " layer ", k, " visited ",
                   blk.h_buffer.ptr[c * M + k], " expected ", want);
          MC_CHECK(inter.h_buffer.ptr[c * M + k] == want,
                   "interlaced: cell ", c, " layer ", k, " visited ",
                   inter.h_buffer.ptr[c * M + k], " expected ", want);
        }
      // the older host-side form, every cell or one cell
      ParticleLoopImplementation::ParticleLoopIterationSet os(
          nbin, nc, np.h_buffer.ptr);
      for (int one = -1; one < nc; one++) {
        auto [nb, nd, off] =
            one < 0 ? os.get(std::nullopt, local) : os.get(one, local);
        std::vector<int> cover(nc, 0);
        for (int k = 0; k < nb; k++) {
          const int w = (int)nd[k].get_global_range().get(0);
          const int d = (int)nd[k].get_global_range().get(1);
          const int l = (int)nd[k].get_local_range().get(1);
          MC_CHECK(l > 0 && d % l == 0, "local range divides");
          for (int c = 0; c < w; c++)
            cover.at(off[k] + c) += d;
        }
        for (int c = 0; c < nc; c++)
          if (one < 0 || one == c)
            MC_CHECK(cover[c] >= occ[c], "iteration set covers cell ", c);
          else
            MC_CHECK(cover[c] == 0, "single cell set visits another cell");
      }
      mc::outcome(v.size());
      if (v.size())
        mc::nontrivial();
    }
    st->free();
  });
}

// Two ranks; empty ranks still take part.
static void ranks2() {
  const int kind = mc::choose(2, "kind") ? SUB : GROUP;
  std::vector<int> occ = pick_occ(4, {0, 1, 3});
  mc_set_rank_order(mc::choose(2, "rank_order"));
  mc::ranks(2, [&](int rank) {
    World w({4, 1});
    std::vector<Part> ref;
    std::vector<int> mine(occ.begin() + 2 * rank, occ.begin() + 2 * rank + 2);
    auto g = make_group(w, mine, ref, loop_spec(), 2);
    auto ga = std::make_shared<GlobalArray<INT>>(w.target, 1, 0);
    auto k = [=](auto N, auto G) {
      N.at(0)++;
      G.add(0, 1);
    };
    if (kind == GROUP)
      particle_loop(pg(g), k, Access::write(Sym<INT>("N")), Access::add(ga))
          ->execute();
    else
      particle_loop(particle_sub_group(pg(g), [=](auto ID) { return true; },
                                       Access::read(Sym<INT>("ID"))),
                    k, Access::write(Sym<INT>("N")), Access::add(ga))
          ->execute();
    INT n = 0;
    for (int c : occ)
      n += c;
    MC_CHECK(ga->get().at(0) == n, "global visit count ", ga->get().at(0));
    for (auto &p : snapshot(*g))
      MC_CHECK(p.i["N"][0] == 1, "visited once");
    if (n)
      mc::nontrivial();
    mc::outcome(n);
    g.reset();
  });
}

const mc_scenario mc_scenarios[] = {
    {"occupancies", occupancies}, {"reductions", reductions},
    {"many_cells", many_cells},   {"defaults", defaults},
    {"schedules", schedules},     {"raw_sets", raw},
    {"two_ranks", ranks2},
};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
