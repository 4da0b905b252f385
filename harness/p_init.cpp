// Initialisation helpers: parallel_advection_initialisation, particles per cell,
// random positions, and global counts.
#include "ranks.hpp"
#include <neso_particles/parallel_initialisation.hpp>
#include <neso_particles/utility.hpp>
#include <random>
using namespace H;

static ParticleSpec spec_of(int ndim) {
  return ParticleSpec{ParticleProp(Sym<REAL>("P"), ndim, true),
                      ParticleProp(Sym<REAL>("V"), 3),
                      ParticleProp(Sym<REAL>("Z"), 1),
                      ParticleProp(Sym<INT>("A"), 2),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1)};
}

// Particles created on any rank reach the rank that owns their position and
// have exactly that position and their other properties.
static void advect(int nranks, std::vector<int> dims, int subdiv, int stencil,
                   int np, int nfree) {
  const int ndim = dims.size();
  const int f = 1 << subdiv;
  const double h = 1.0 / f;
  int nc[3] = {1, 1, 1}, ncell = 1;
  for (int d = 0; d < ndim; d++)
    ncell *= (nc[d] = dims[d] * f);
  const int total = nranks * np;
  std::vector<int> dest;
  for (int k = 0; k < total; k++)
    dest.push_back(k < nfree ? mc::choose(ncell, "cell") : (5 * k + 1) % ncell);
  const int off = mc::choose(4, "offset");
  static const int STEPS[4] = {1, 3, 20, 2};
  const int steps = STEPS[mc::choose(mc_tier ? 4 : 3, "steps")];
  const int home = mc::choose(2, "all on one rank");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  Shared S;
  S.found.resize(nranks);
  std::vector<std::array<int, 3>> ct;
  for (int id = 0; id < total; id++) {
    auto p = base_part(ndim, id, 0);
    p.r["Z"] = {rval(id, 99)};
    const int c = dest[id];
    std::array<int, 3> t = {c % nc[0], (c / nc[0]) % nc[1], c / (nc[0] * nc[1])};
    ct.push_back(t);
    p.r["P"].clear();
    for (int d = 0; d < ndim; d++) {
      const int o = (off + id * (d + 1)) % 4;
      p.r["P"].push_back(o == 3 ? std::nextafter(h * (t[d] + 1), 0.0)
                                : h * (t[d] + (o == 0   ? 0.0
                                               : o == 1 ? 0.5
                                                        : 0.3)));
    }
    S.all.push_back(p);
  }
  std::map<std::array<int, 3>, std::pair<int, INT>> cells;
  mc::ranks(nranks, [&](int rank) {
    World w(dims, subdiv, stencil);
    auto s = spec_of(ndim);
    auto g = std::make_shared<TG>(w.domain, s, w.target);
    auto owned = w.mesh->get_owned_cells();
    double pt[3] = {-1, -1, -1};
    w.mesh->get_point_in_subdomain(pt);
    if (owned.size()) {
      std::array<int, 3> t = {0, 0, 0};
      for (int d = 0; d < ndim; d++)
        t[d] = (int)std::floor(pt[d] / h);
      MC_CHECK(std::find(owned.begin(), owned.end(), t) != owned.end(),
               "point in the subdomain of rank ", rank, " is outside of it");
    }
    mc_race_off(1);
    for (size_t k = 0; k < owned.size(); k++)
      cells[owned[k]] = {rank, (INT)k};
    mc_race_off(0);
    MPI_Barrier(MPI_COMM_WORLD);
    mc_race_off(1);
    if (rank == 0)
      for (int id = 0; id < total; id++) {
        S.owner[id] = cells.at(ct[id]).first;
        S.cell[id] = cells.at(ct[id]).second;
      }
    mc_race_off(0);
    std::vector<Part> mine, tmp;
    for (auto &p : S.all)
      if ((home ? nranks - 1 : (int)p.i.at("ID")[0] / np) == rank)
        mine.push_back(p);
    g->add_particles_local(to_set(mine, s));
    parallel_advection_initialisation(pg(g), steps);
    MC_CHECK(!g->contains_dat(Sym<REAL>("NESO_ORIG_POS")) &&
                 g->particle_dats_real.size() == 3,
             "a temporary property is left");
    gather(S, *g, rank, tmp);
    check_all(S, "parallel_advection_initialisation", false);
    MPI_Barrier(MPI_COMM_WORLD);
    MC_CHECK(get_npart_global(pg(g)) == total, "number of particles");
    auto odd = particle_sub_group(
        pg(g), [=](auto ID) { return ID.at(0) % 2 == 1; },
        Access::read(Sym<INT>("ID")));
    MC_CHECK(get_npart_global(odd) == total / 2,
             "number of particles of a sub group");
    MC_CHECK(get_npart_global(particle_sub_group(pg(g))) == total,
             "number of particles of the whole sub group");
    g->cell_move();
    gather(S, *g, rank, tmp);
    check_all(S, "cell_move", true);
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank == 0) {
      mc::nontrivial();
      uint64_t o = 0;
      for (int id = 0; id < total; id++)
        o = o * 7 + S.owner[id];
      mc::outcome(o);
    }
    odd.reset();
    g.reset();
  });
}
static void advect1() { advect(1, {3, 2}, 0, 0, 2, 2); }
static void advect2() { advect(2, {3, 2}, 0, 0, mc_tier ? 2 : 1, 2); }
static void advect2_halo() { advect(2, {4, 2}, 0, 1, mc_tier ? 2 : 1, 2); }
static void advect3() { advect(3, {2, 1}, 1, 0, mc_tier ? 2 : 1, mc_tier ? 3 : 2); }
static void advect4() { advect(4, {4, 3}, 0, 0, 1, 2); }
static void advect3d() { advect(2, {2, 2, 2}, 0, 0, mc_tier ? 2 : 1, 2); }
static void advect3d3() { advect(3, {3, 2, 1}, 0, 0, 1, mc_tier ? 3 : 1); }

// npart_per_cell particles in each owned cell, inside of the cell.
static void per_cell() {
  const int nranks = 1 + mc::choose(4, "ranks");
  static const std::vector<std::vector<int>> DIMS = {
      {2, 2}, {3, 1}, {1, 4}, {2, 1, 2}, {3, 2, 1}};
  const auto &dims = DIMS[mc::choose(5, "mesh")];
  const int sub = mc::choose(2, "subdivision");
  // a decomposition along one dimension must exist
  if (*std::max_element(dims.begin(), dims.end()) * (1 << sub) < nranks)
    mc_discard();
  static const double EX[3] = {1.0, 0.3, 7.0};
  const double ex = EX[mc::choose(3, "extent")];
  const int single = mc::choose(2, "single cell mode");
  const int n = mc::choose(4, "per cell");
  const int rng = mc::choose(3, "rng"); // 0: none, 1, 2: seeds
  const int ndim = dims.size();
  const double h = ex / (1 << sub);
  std::vector<std::set<std::array<int, 3>>> found(nranks);
  mc::ranks(nranks, [&](int rank) {
    World w(dims, sub, 0, ex);
    if (single)
      w.mesh->single_cell_mode = true;
    std::vector<std::vector<double>> pos = {{7.0}}, again;
    std::vector<int> cells = {77}, cells2;
    if (rng == 0)
      uniform_within_cartesian_cells(w.mesh, n, pos, cells);
    else
      uniform_within_cartesian_cells(w.mesh, n, pos, cells,
                                     std::mt19937(rng * 100 + rank));
    auto owned = w.mesh->get_owned_cells();
    const size_t tot = owned.size() * n;
    MC_CHECK((int)owned.size() == w.mesh->get_cart_cell_count(), "cells");
    MC_CHECK(w.mesh->get_cell_count() == (single ? 1 : (int)owned.size()),
             "number of cells");
    MC_CHECK((int)pos.size() == ndim && cells.size() == tot, "sizes");
    for (int d = 0; d < ndim; d++)
      MC_CHECK(pos[d].size() == tot, "size of positions");
    std::vector<int> count(owned.size(), 0);
    std::set<double> seen;
    for (size_t k = 0; k < tot; k++) {
      // the cell the position is in
      int c = single ? (int)(k / n) : cells[k];
      if (single)
        MC_CHECK(cells[k] == 0, "cell in the single cell mode");
      MC_CHECK(c >= 0 && c < (int)owned.size(), "cell index");
      if (single) // any owned cell
        for (int q = 0; q < (int)owned.size(); q++) {
          bool in = true;
          for (int d = 0; d < ndim; d++)
            in = in && pos[d][k] >= h * owned[q][d] - 1e-12 &&
                 pos[d][k] <= h * (owned[q][d] + 1) + 1e-12;
          if (in && count[q] < n) {
            c = q;
            break;
          }
        }
      count[c]++;
      for (int d = 0; d < ndim; d++) {
        MC_CHECK(pos[d][k] >= h * owned[c][d] - 1e-12 &&
                     pos[d][k] <= h * (owned[c][d] + 1) + 1e-12,
                 "position ", pos[d][k], " of particle ", k, " in dimension ",
                 d, " is outside of its cell ", c);
        const double rel = pos[d][k] - h * owned[c][d];
        MC_CHECK(seen.insert(rel).second, "a coordinate repeats");
      }
    }
    for (size_t c = 0; c < owned.size(); c++)
      MC_CHECK(count[c] == n, "cell ", c, " has ", count[c], " particles");
    if (rng) {
      uniform_within_cartesian_cells(w.mesh, n, again, cells2,
                                     std::mt19937(rng * 100 + rank));
      MC_CHECK(again == pos && cells2 == cells, "the same generator");
    }
    if (tot)
      mc::nontrivial();
  });
  mc::outcome(n * 10 + nranks);
}

// Random arrays.
static void arrays() {
  static const int NS[4] = {0, 1, 5, 2000};
  const int n = NS[mc::choose(4, "N")];
  const int ndim = 1 + mc::choose(3, "ndim");
  const int kind = mc::choose(2, "kind");
  const int seeded = mc::choose(2, "seeded");
  static const double A[3] = {1.0, 0.125, 40.0}, MU[3] = {0.0, -3.0, 100.0},
                      SG[3] = {1.0, 0.01, 20.0};
  const int va = mc::choose(3, "a"), vb = mc::choose(3, "b");
  std::vector<std::vector<double>> x;
  const double ext[3] = {A[va], A[vb], A[(va + vb) % 3]};
  std::mt19937 r1(5), r2(5);
  if (kind == 0) {
    x = seeded ? uniform_within_extents(n, ndim, ext, r1)
               : uniform_within_extents(n, ndim, ext);
    if (seeded)
      MC_CHECK(x == uniform_within_extents(n, ndim, ext, r2), "determinism");
  } else {
    x = seeded ? normal_distribution(n, ndim, MU[va], SG[vb], r1)
               : normal_distribution(n, ndim, MU[va], SG[vb]);
    if (seeded)
      MC_CHECK(x == normal_distribution(n, ndim, MU[va], SG[vb], r2),
               "determinism");
  }
  MC_CHECK((int)x.size() == ndim, "components");
  for (int d = 0; d < ndim; d++) {
    MC_CHECK((int)x[d].size() == n, "number of values");
    std::set<double> s(x[d].begin(), x[d].end());
    MC_CHECK((int)s.size() == n, "a value repeats");
    for (int e = 0; e < d && n > 1; e++)
      MC_CHECK(x[d] != x[e], "components are equal");
    double m = 0, v = 0;
    for (double y : x[d]) {
      if (kind == 0)
        MC_CHECK(y >= 0 && y <= ext[d], "value outside of the extent");
      m += y / n;
    }
    for (double y : x[d])
      v += (y - m) * (y - m) / n;
    if (n < 2000)
      continue;
    const double em = kind ? MU[va] : 0.5 * ext[d];
    const double es = kind ? SG[vb] : ext[d] / std::sqrt(12.0);
    // 9 standard errors
    MC_CHECK(std::abs(m - em) < 9 * es / std::sqrt((double)n), "mean ", m,
             " instead of ", em);
    MC_CHECK(std::abs(std::sqrt(v) / es - 1) < 9 / std::sqrt((double)n),
             "deviation ", std::sqrt(v), " instead of ", es);
    mc::nontrivial();
  }
  std::map<int, INT> mm;
  std::vector<INT> want;
  for (int k = 0; k < n % 7; k++)
    mm[k * k - 3 * k * va] = k + 10;
  for (auto &q : mm)
    want.push_back(q.second);
  MC_CHECK(flatten_map(mm) == want, "flatten_map");
  mc::outcome(n);
}

const mc_scenario mc_scenarios[] = {{"advection_1_rank", advect1},
                   {"advection_2_ranks", advect2},
                   {"advection_2_ranks_halo", advect2_halo},
                   {"advection_3_ranks", advect3},
                   {"advection_4_ranks", advect4},
                   {"advection_3d", advect3d},
                   {"advection_3d_3_ranks", advect3d3},
                   {"particles_per_cell", per_cell},
                   {"random_arrays", arrays}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
