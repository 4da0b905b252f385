// Oracle state shared by the ranks of one execution.
#pragma once
#include "model.hpp"
namespace H {
struct Shared { // oracle state common to all ranks
  std::vector<Part> all;                // model, with r["P"] and target rank
  std::map<INT, int> owner;             // id -> expected rank
  std::map<INT, INT> cell;              // id -> expected local cell (or -1)
  std::vector<std::vector<Part>> found; // per rank
  std::map<std::array<INT, 2>, std::pair<int, INT>> cells; // (cx,cy)->rank,cell
};

inline void gather(Shared &S, TG &g, int rank, std::vector<Part> &mine) {
  g.check_internal();
  mine = snapshot(g);
  mc_race_off(1);
  S.found[rank] = mine;
  mc_race_off(0);
  MPI_Barrier(MPI_COMM_WORLD);
}
inline void check_all(Shared &S, const char *when, bool cells) {
  mc_race_off(1);
  std::vector<Part> got, want;
  std::set<INT> seen;
  for (size_t r = 0; r < S.found.size(); r++)
    for (auto p : S.found[r]) {
      const INT id = p.i.at("ID").at(0);
      MC_CHECK(S.owner.count(id), when, ": unknown particle on rank ", r, " ",
               show(p));
      MC_CHECK(seen.insert(id).second, when, ": particle ", id,
               " exists twice");
      MC_CHECK(S.owner[id] == (int)r, when, ": particle ", id, " is on rank ",
               r, " expected ", S.owner[id]);
      if (cells) {
        MC_CHECK(p.cell == S.cell[id], when, ": particle ", id, " in cell ",
                 p.cell, " expected ", S.cell[id]);
        MC_CHECK(p.i.at("CELL_ID").at(0) == S.cell[id], when, ": CELL_ID of ",
                 id);
      }
      p.cell = 0;
      got.push_back(p);
    }
  for (auto p : S.all) {
    p.cell = 0;
    want.push_back(p);
  }
  compare(got, want, {"NESO_MPI_RANK", "CELL_ID"}, when);
  mc_race_off(0);
}

inline ParticleSpec wide_spec(int ndim) {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), ndim, true),
                      ParticleProp(Sym<REAL>("V"), 3),
                      ParticleProp(Sym<REAL>("Z"), 1),
                      ParticleProp(Sym<INT>("A"), 2),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1)};
}

} // namespace H
