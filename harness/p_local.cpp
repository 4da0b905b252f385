// LocalMove: particles sent along every directed neighbour relation arrive
// once, intact, on the rank they were addressed to.
#include "ranks.hpp"
using namespace H;

struct TGL : public TG {
  using TG::TG;
  void set_ctx(std::vector<int> ranks) {
    this->local_move_ctx = std::make_unique<LocalMove>(
        sycl_target, layer_compressor, this->particle_group_pointer_map,
        (int)ranks.size(), ranks.data());
    this->local_move_ctx->set_mpi_rank_dat(mpi_rank_dat);
  }
};

static void graph(int nranks, int np, int bound, bool twice) {
  std::vector<std::vector<int>> nb(nranks);
  for (int r = 0; r < nranks; r++) {
    const int m = mc::choose(1 << (nranks - 1), "neighbours");
    for (int k = 0, b = 0; k < nranks; k++)
      if (k != r) {
        if (m >> b & 1)
          nb[r].push_back(k);
        b++;
      }
  }
  const int incl_self = mc::choose(2, "self_listed");
  std::vector<int> dest(nranks * np, -1);
  for (int k = 0; k < nranks * np; k++) {
    const int r = k / np;
    const int c = mc::choose(1 + (int)nb[r].size(), "dest");
    dest[k] = c == 0 ? (incl_self ? r : -1) : nb[r][c - 1];
  }
  mc_set_rank_order(mc::choose(2, "rank_order"));
  mc_set_sched_bound(bound);
  Shared S;
  S.found.resize(nranks);
  bool moved = false;
  for (int k = 0; k < nranks * np; k++) {
    auto p = base_part(2, k, k % 2);
    p.r["Z"] = {rval(k, 99)};
    S.all.push_back(p);
    S.owner[k] = dest[k] < 0 ? k / np : dest[k];
    moved = moved || S.owner[k] != k / np;
  }
  mc::ranks(nranks, [&](int rank) {
    World w({2 * nranks, 1});
    auto s = wide_spec(2);
    auto g = std::make_shared<TGL>(w.domain, s, w.target);
    auto ranks = nb[rank];
    if (incl_self) {
      ranks.push_back(rank);
      if (nb[rank].size())
        ranks.push_back(nb[rank][0]); // listed twice
    }
    g->set_ctx(ranks);
    std::vector<Part> mine, tmp;
    for (auto &p : S.all)
      if (p.i.at("ID")[0] / np == rank)
        mine.push_back(p);
    g->add_particles_local(to_set(mine, s));
    std::vector<INT> dv(dest.begin(), dest.end());
    LocalArray<INT> ld(w.target, dv);
    particle_loop(
        std::static_pointer_cast<ParticleGroup>(g),
        [=](auto R, auto ID, auto D) {
          R.at(0) = -1;
          R.at(1) = D.at(ID.at(0));
        },
        Access::write(Sym<INT>("NESO_MPI_RANK")), Access::read(Sym<INT>("ID")),
        Access::read(ld))
        ->execute();
    g->local_move();
    gather(S, *g, rank, tmp);
    check_all(S, "local_move", false);
    MPI_Barrier(MPI_COMM_WORLD);
    if (twice) {
      // send everything to the first neighbour of the rank it is now on
      const int to = nb[rank].size() ? nb[rank].back() : -1;
      particle_loop(
          std::static_pointer_cast<ParticleGroup>(g),
          [=](auto R, auto ID) { R.at(1) = to; },
          Access::write(Sym<INT>("NESO_MPI_RANK")),
          Access::read(Sym<INT>("ID")))
          ->execute();
      mc_race_off(1);
      if (rank == 0)
        for (auto &x : S.owner)
          if (nb[x.second].size())
            x.second = nb[x.second].back();
      mc_race_off(0);
      g->local_move();
      gather(S, *g, rank, tmp);
      check_all(S, "second local_move", false);
      MPI_Barrier(MPI_COMM_WORLD);
    }
    if (rank == 0) {
      if (moved)
        mc::nontrivial();
      for (auto &f : S.found)
        hash_state(f);
    }
    g.reset();
  });
}
static void graph2() { graph(2, mc_tier ? 5 : 4, 0, true); }
static void graph3() { graph(3, mc_tier ? 2 : 1, 0, true); }
static void graph4() {
  if (!mc_tier)
    graph(2, 2, 0, true);
  else
    graph(4, 1, 0, false);
}
static void graph2s() { graph(2, 1, mc_tier ? 2 : 1, false); }
static void graph3s() { graph(3, 1, 1, false); }

// Positions within the stencil reach the owning rank in one local move; those
// outside it stay and are marked unknown.
static void halo(std::vector<int> dims, int nranks, int stencil, int np) {
  const int nx = dims[0], ny = dims[1], ncell = nx * ny;
  std::vector<int> dest;
  for (int k = 0; k < nranks * np; k++)
    dest.push_back(mc::choose(ncell, "cell"));
  mc_set_rank_order(mc::choose(2, "rank_order"));
  Shared S;
  S.found.resize(nranks);
  for (int k = 0; k < nranks * np; k++) {
    auto p = base_part(2, k, 0, {dest[k] % nx + 0.5, dest[k] / nx + 0.5});
    p.r["Z"] = {rval(k, 99)};
    S.all.push_back(p);
  }
  std::map<INT, bool> reach;
  mc::ranks(nranks, [&](int rank) {
    World w(dims, 0, stencil);
    auto s = wide_spec(2);
    auto g = std::make_shared<TGL>(w.domain, s, w.target);
    auto owned = w.mesh->get_owned_cells();
    mc_race_off(1);
    for (size_t k = 0; k < owned.size(); k++)
      S.cells[{owned[k][0], owned[k][1]}] = {rank, (INT)k};
    mc_race_off(0);
    MPI_Barrier(MPI_COMM_WORLD);
    std::vector<Part> mine, tmp;
    mc_race_off(1);
    for (auto &p : S.all) {
      const INT id = p.i.at("ID")[0];
      if (id / np != rank)
        continue;
      mine.push_back(p);
      // distance in cells from this rank's owned box, with wrap around
      const int cx = dest[id] % nx, cy = dest[id] / nx;
      auto own = S.cells.at({cx, cy});
      bool r = false;
      for (auto &o : owned) {
        int dx = std::abs(o[0] - cx), dy = std::abs(o[1] - cy);
        dx = std::min(dx, nx - dx);
        dy = std::min(dy, ny - dy);
        r = r || (dx <= stencil && dy <= stencil);
      }
      reach[id] = r;
      S.owner[id] = r ? own.first : rank;
    }
    mc_race_off(0);
    g->add_particles_local(to_set(mine, s));
    reset_mpi_ranks(g->mpi_rank_dat);
    w.mapper->map(*g);
    {
      auto v = snapshot(*g);
      mc_race_off(1);
      for (auto &p : v) {
        const INT id = p.i.at("ID")[0];
        const INT m = p.i.at("NESO_MPI_RANK")[1];
        MC_CHECK(m == (reach[id] ? (INT)S.owner[id] : (INT)-1),
                 "local mapper: particle ", id, " mapped to rank ", m,
                 " expected ", reach[id] ? S.owner[id] : -1);
        MC_CHECK(p.i.at("NESO_MPI_RANK")[0] == -1, "component 0 untouched");
      }
      mc_race_off(0);
    }
    g->local_move();
    gather(S, *g, rank, tmp);
    check_all(S, "local_move", false);
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank == 0) {
      mc::nontrivial();
      for (auto &f : S.found)
        hash_state(f);
    }
    g.reset();
  });
}
static void halo_line() { halo({6, 1}, 3, 1, 1); }
static void halo_grid() { halo({4, 3}, 2, 1, mc_tier ? 3 : 2); }
static void halo_wide() { halo({8, 1}, 4, 2, 1); }
static void halo_none() { halo({4, 2}, 2, 0, 2); }

const mc_scenario mc_scenarios[] = {
    {"graph_2_ranks", graph2},       {"graph_3_ranks", graph3},
    {"graph_4_ranks", graph4},       {"graph_2_ranks_schedules", graph2s},
    {"graph_3_ranks_schedules", graph3s}, {"halo_line", halo_line},
    {"halo_grid", halo_grid},        {"halo_wide", halo_wide},
    {"halo_none", halo_none},
};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
