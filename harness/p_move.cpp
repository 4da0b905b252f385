// Particles moved between MPI ranks: nothing lost, duplicated or altered, and
// every particle ends on the rank (and cell) that owns its position.
#include "ranks.hpp"
using namespace H;

// ---- global_move with an arbitrary rank assignment --------------------------
// Each rank holds np particles; every assignment of destination ranks (and
// "stays" = own rank) to particles is enumerated.
static void routed(int nranks, int np, int bound, bool twice) {
  std::vector<int> dest;
  for (int k = 0; k < nranks * np; k++)
    dest.push_back(mc::choose(nranks, "dest"));
  const int cellmode = mc::choose(2, "cells");
  const int dev = mc::choose(2, "device_aware");
  mc_set_rank_order(mc::choose(3, "rank_order"));
  mc_set_send_mode(mc::choose(2, "send"));
  if (dev)
    setenv("NESO_PARTICLES_DEVICE_AWARE_MPI", "1", 1);
  mc_set_sched_bound(bound);
  Shared S;
  S.found.resize(nranks);
  for (int r = 0; r < nranks; r++)
    for (int k = 0; k < np; k++) {
      const int id = r * np + k;
      auto p = base_part(2, id, cellmode ? k % 2 : 0);
      p.r["Z"] = {rval(id, 99)};
      S.all.push_back(p);
    }
  mc::ranks(nranks, [&](int rank) {
    World w({2 * nranks, 1});
    auto s = wide_spec(2);
    auto g = std::make_shared<TG>(w.domain, s, w.target);
    std::vector<Part> mine, tmp;
    for (auto &p : S.all)
      if (p.i.at("ID")[0] / np == rank)
        mine.push_back(p);
    g->add_particles_local(to_set(mine, s));
    auto set_dest = [&](int shift) {
      std::vector<INT> dv;
      for (int d : dest)
        dv.push_back((d + shift) % nranks);
      LocalArray<INT> ld(w.target, dv);
      particle_loop(
          std::static_pointer_cast<ParticleGroup>(g),
          [=](auto R, auto ID, auto D) {
            R.at(0) = D.at(ID.at(0));
            R.at(1) = -1;
          },
          Access::write(Sym<INT>("NESO_MPI_RANK")),
          Access::read(Sym<INT>("ID")), Access::read(ld))
          ->execute();
      mc_race_off(1);
      if (rank == 0)
        for (size_t k = 0; k < dv.size(); k++)
          S.owner[k] = (int)dv[k];
      mc_race_off(0);
    };
    set_dest(0);
    g->global_move();
    gather(S, *g, rank, tmp);
    check_all(S, "global_move", false);
    MPI_Barrier(MPI_COMM_WORLD);
    if (twice) {
      set_dest(1);
      g->global_move();
      gather(S, *g, rank, tmp);
      check_all(S, "second global_move", false);
      MPI_Barrier(MPI_COMM_WORLD);
    }
    if (rank == 0) {
      bool moved = false;
      for (size_t k = 0; k < dest.size(); k++)
        if (dest[k] != (int)k / np)
          moved = true;
      if (moved)
        mc::nontrivial();
      for (auto &f : S.found)
        hash_state(f);
    }
    g.reset();
  });
}
static void routed2() { routed(2, mc_tier ? 3 : 2, 0, true); }
static void routed3() { routed(3, mc_tier ? 2 : 1, 0, true); }
static void routed2_sched() { routed(2, 1, mc_tier ? 2 : 1, false); }
static void routed3_sched() { routed(3, 1, 1, false); }

// ---- hybrid_move + cell_move by position -------------------------------------
static void by_position(int nranks, std::vector<int> dims, int subdiv,
                        int stencil, int np, int rounds, int bound,
                        int nfree = 100) {
  const int f = 1 << subdiv;
  const int nx = dims[0] * f, ny = dims[1] * f;
  const int ncell = nx * ny;
  std::vector<int> dest;
  for (int k = 0; k < nranks * np; k++)
    dest.push_back(k < nfree ? mc::choose(ncell, "cell") : (5 * k) % ncell);
  mc_set_rank_order(mc::choose(2, "rank_order"));
  mc_set_send_mode(mc::choose(2, "send"));
  mc_set_sched_bound(bound);
  Shared S;
  S.found.resize(nranks);
  const double h = 1.0 / f;
  // offset within a cell: corners included (lower edges belong to the cell)
  auto where = [&](int c, int id) {
    const double fx[3] = {0.0, 0.5, 0.984375};
    return std::vector<REAL>{h * ((c % nx) + fx[id % 3]),
                             h * ((c / nx) + fx[(id / 3 + id) % 3])};
  };
  for (int id = 0; id < nranks * np; id++) {
    auto p = base_part(2, id, 0);
    p.r["Z"] = {rval(id, 99)};
    S.all.push_back(p);
  }
  mc::ranks(nranks, [&](int rank) {
    World w(dims, subdiv, stencil);
    auto s = wide_spec(2);
    auto g = std::make_shared<TG>(w.domain, s, w.target);
    // the decomposition, as reported by the mesh, must partition the cells
    auto owned = w.mesh->get_owned_cells();
    mc_race_off(1);
    for (size_t k = 0; k < owned.size(); k++) {
      auto ins = S.cells.insert({{owned[k][0], owned[k][1]}, {rank, (INT)k}});
      MC_CHECK(ins.second, "mesh cell owned twice");
    }
    mc_race_off(0);
    MPI_Barrier(MPI_COMM_WORLD);
    MC_CHECK((int)S.cells.size() == ncell, "mesh cells owned");
    std::vector<Part> mine, tmp;
    for (auto &p : S.all)
      if (p.i.at("ID")[0] / np == rank)
        mine.push_back(p);
    g->add_particles_local(to_set(mine, s));
    for (int round = 0; round < rounds; round++) {
      std::vector<REAL> pos;
      for (size_t id = 0; id < dest.size(); id++) {
        auto q = where((dest[id] + round * 3) % ncell, (int)id + round);
        pos.insert(pos.end(), q.begin(), q.end());
      }
      mc_race_off(1);
      if (rank == 0)
        for (size_t id = 0; id < dest.size(); id++) {
          const int c = (dest[id] + round * 3) % ncell;
          S.all[id].r["P"] = {pos[2 * id], pos[2 * id + 1]};
          auto oc = S.cells.at({(INT)(c % nx), (INT)(c / nx)});
          S.owner[id] = oc.first;
          S.cell[id] = oc.second;
        }
      mc_race_off(0);
      LocalArray<REAL> lp(w.target, pos);
      particle_loop(
          std::static_pointer_cast<ParticleGroup>(g),
          [=](auto P, auto ID, auto L) {
            P.at(0) = L.at(2 * ID.at(0));
            P.at(1) = L.at(2 * ID.at(0) + 1);
          },
          Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")),
          Access::read(lp))
          ->execute();
      g->hybrid_move();
      gather(S, *g, rank, tmp);
      check_all(S, "hybrid_move", false);
      MPI_Barrier(MPI_COMM_WORLD);
      g->cell_move();
      gather(S, *g, rank, tmp);
      check_all(S, "cell_move", true);
      MPI_Barrier(MPI_COMM_WORLD);
      // binning alone gives the same cells
      particle_loop(
          std::static_pointer_cast<ParticleGroup>(g),
          [=](auto C) { C.at(0) = -7; }, Access::write(Sym<INT>("CELL_ID")))
          ->execute();
      CartesianCellBin(w.target, w.mesh, g->position_dat, g->cell_id_dat)
          .execute();
      gather(S, *g, rank, tmp);
      check_all(S, "CartesianCellBin", true);
      MPI_Barrier(MPI_COMM_WORLD);
    }
    if (rank == 0) {
      mc::nontrivial();
      for (auto &f : S.found)
        hash_state(f);
    }
    g.reset();
  });
}
static void pos2() { by_position(2, {2, 2}, 0, 0, mc_tier ? 3 : 2, 2, 0); }
static void pos2_halo() { by_position(2, {4, 1}, 0, 1, 2, 2, 0); }
static void pos4_halo() {
  by_position(4, {2, 2}, 1, 1, 1, 1, 0, mc_tier ? 4 : 3);
}
static void pos3() { by_position(3, {3, 1}, 0, 0, mc_tier ? 2 : 1, 2, 0); }
static void pos3_halo() { by_position(3, {3, 1}, 1, 1, 1, 1, 0); }
static void pos2_sched() { by_position(2, {2, 1}, 0, 0, 1, 1, 1); }
static void pos2_halo_sched() { by_position(2, {4, 1}, 0, 1, 1, 1, 1); }

// ---- many particles, growing and shrinking message sizes --------------------
static void bulk() {
  const int nranks = 2 + mc::choose(2, "ranks");
  const int sizes[4] = {0, 1, 7, mc_tier ? 70 : 33};
  int np[3];
  for (int r = 0; r < nranks; r++)
    np[r] = sizes[mc::choose(4, "n")];
  const int rounds = mc_tier ? 3 : 2;
  int pat[3];
  for (int k = 0; k < rounds; k++)
    pat[k] = mc::choose(4, "pattern");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  mc_set_item_order(mc::choose(2, "item_order"));
  Shared S;
  S.found.resize(nranks);
  std::vector<int> home;
  for (int r = 0; r < nranks; r++)
    for (int k = 0; k < np[r]; k++) {
      auto p = base_part(2, (int)S.all.size(), k % 2);
      p.r["Z"] = {rval((int)S.all.size(), 99)};
      home.push_back(r);
      S.owner[(INT)S.all.size()] = r;
      S.all.push_back(p);
    }
  mc::ranks(nranks, [&](int rank) {
    World w({2 * nranks, 1});
    auto s = wide_spec(2);
    auto g = std::make_shared<TG>(w.domain, s, w.target);
    std::vector<Part> mine, tmp;
    for (auto &p : S.all)
      if (home[p.i.at("ID")[0]] == rank)
        mine.push_back(p);
    g->add_particles_local(to_set(mine, s));
    for (int k = 0; k < rounds; k++) {
      const int t = pat[k];
      auto f = [=](INT id, int r) -> INT {
        return t == 0   ? 0
               : t == 1 ? (r + 1) % nranks
               : t == 2 ? id % nranks
                        : (id % 3 == 0 ? (r + nranks - 1) % nranks : r);
      };
      particle_loop(
          std::static_pointer_cast<ParticleGroup>(g),
          [=](auto R, auto ID) { R.at(0) = f(ID.at(0), rank); },
          Access::write(Sym<INT>("NESO_MPI_RANK")),
          Access::read(Sym<INT>("ID")))
          ->execute();
      MPI_Barrier(MPI_COMM_WORLD);
      mc_race_off(1);
      if (rank == 0)
        for (auto &x : S.owner)
          x.second = (int)f(x.first, x.second);
      mc_race_off(0);
      g->global_move();
      gather(S, *g, rank, tmp);
      check_all(S, "bulk global_move", false);
      MPI_Barrier(MPI_COMM_WORLD);
    }
    if (rank == 0) {
      if (S.all.size())
        mc::nontrivial();
      for (auto &f : S.found)
        hash_state(f);
    }
    g.reset();
  });
}

const mc_scenario mc_scenarios[] = {
    {"routed_2_ranks", routed2},
    {"routed_3_ranks", routed3},
    {"routed_2_ranks_schedules", routed2_sched},
    {"routed_3_ranks_schedules", routed3_sched},
    {"bulk", bulk},
    {"position_2_ranks", pos2},
    {"position_2_ranks_halo", pos2_halo},
    {"position_3_ranks", pos3},
    {"position_3_ranks_halo", pos3_halo},
    {"position_4_ranks_halo", pos4_halo},
    {"position_2_ranks_schedules", pos2_sched},
    {"position_2_ranks_halo_schedules", pos2_halo_sched},
};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
