// Boundary surface data: BoundaryMeshInterface exchanges in both directions
// and functions on the boundary of a CartesianHMesh.
#include "ranks.hpp"
using namespace H;

// ---- BoundaryMeshInterface ---------------------------------------------
// Geometry objects 0..NG-1 (ids 7*g+3) with an arbitrary owner each; per round
// each rank adds an arbitrary set of objects it requires.
static void interface(int nr, int ng, int rounds, int bound, bool order) {
  if (bound)
    mc_set_sched_bound(bound);
  if (order)
    mc_set_rank_order(mc::choose(2, "rank_order"));
  std::vector<int> owner(ng);
  // the first object belongs to rank 0 (symmetry) unless three ranks exist
  for (int g = 0; g < ng; g++)
    owner[g] = mc::choose(nr, "owner");
  std::vector<std::vector<int>> add(rounds, std::vector<int>(nr));
  for (auto &r : add)
    for (auto &x : r)
      x = mc::choose(1 << ng, "new_geoms");
  const int ncomp = 1 + mc::choose(2, "ncomp") * 2;
  auto gid = [](int g) { return (INT)(7 * g + 3); };
  std::vector<std::vector<int>> need(nr, std::vector<int>(ng, 0)); // oracle
  mc::ranks(nr, [&](int rank) {
    auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    std::vector<INT> owned;
    for (int g = ng - 1; g >= 0; g--)
      if (owner[g] == rank)
        owned.push_back(gid(g));
    BoundaryMeshInterface bmi(MPI_COMM_WORLD, target, owned);
    auto version = bmi.get_version_function_handle();
    std::int64_t ver = version();
    MC_CHECK(ver == 1, "initial version ", ver);
    MC_CHECK(bmi.get_num_intersection_geoms() == 0, "initial count");
    std::vector<std::set<int>> known(nr);
    std::set<INT> seen;
    auto exchange = [&]() {
      const INT n = bmi.get_num_intersection_geoms();
      MC_CHECK(n == (INT)known[rank].size(), "number of geoms ", n);
      std::set<INT> idx;
      for (int g : known[rank]) {
        const INT s = bmi.get_seq_index_from_geom_id(gid(g));
        MC_CHECK(s >= 0 && s < n && idx.insert(s).second, "index of geom ", g);
        MC_CHECK(bmi.get_geom_id_from_seq_index(s) == gid(g), "inverse index");
      }
      MC_CHECK(bmi.get_extended_pattern_geom_ids() == seen, "extended ids");
      auto [root, num] = bmi.get_device_geom_id_to_seq();
      MC_CHECK(num == n, "device map size");
      for (int g = 0; g < ng; g++) {
        const INT *v = nullptr;
        bool found = false;
        if (root != nullptr) {
          auto *r = root;
          BufferDevice<INT> db(target, 2);
          auto *k = db.ptr;
          const INT key = gid(g);
          target->queue
              .single_task([=]() {
                const INT *q = nullptr;
                k[0] = r->get(key, &q) ? 1 : 0;
                k[1] = k[0] ? *q : -1;
              })
              .wait_and_throw();
          auto h = db.get();
          found = h[0];
          if (found)
            MC_CHECK(h[1] == bmi.get_seq_index_from_geom_id(gid(g)),
                     "device index of geom ", g);
        }
        (void)v;
        MC_CHECK(found == (known[rank].count(g) > 0), "device map entry ", g);
      }
      INT exported = 0;
      for (int r = 0; r < nr; r++)
        for (int g : known[r])
          exported += owner[g] == rank;
      if (ver > 1)
        MC_CHECK(bmi.get_total_num_exported_geoms() == exported,
                 "exported geoms ", bmi.get_total_num_exported_geoms(), " of ",
                 exported);
      // projection direction
      auto val = [&](int r, int g, int c) {
        return (REAL)((1 + r * 5 + g) * 8 + c + 64 * (INT)ver);
      };
      std::vector<REAL> src(std::max<INT>(1, n) * ncomp, -5.0);
      for (int g : known[rank])
        for (int c = 0; c < ncomp; c++)
          src[bmi.get_seq_index_from_geom_id(gid(g)) * ncomp + c] = val(rank, g, c);
      std::vector<REAL> dst(std::max<size_t>(1, owned.size()) * ncomp, 0.5);
      BufferDevice<REAL> d_src(target, src), d_dst(target, dst);
      bmi.exchange_from_device(d_src.ptr, ncomp, d_dst.ptr);
      auto out = d_dst.get();
      for (size_t k = 0; k < owned.size(); k++)
        for (int c = 0; c < ncomp; c++) {
          const int g = (int)(owned[k] - 3) / 7;
          REAL want = 0.5;
          for (int r = 0; r < nr; r++)
            if (known[r].count(g))
              want += val(r, g, c);
          MC_CHECK(out[k * ncomp + c] == want, "gathered value of geom ", g,
                   " component ", c, ": ", out[k * ncomp + c], " expected ", want);
        }
      // evaluation direction
      auto dof = [&](int g, int c) { return (REAL)(g * 16 + c * 3 + 1 + (INT)ver); };
      for (size_t k = 0; k < owned.size(); k++)
        for (int c = 0; c < ncomp; c++)
          dst[k * ncomp + c] = dof((int)(owned[k] - 3) / 7, c);
      d_dst.set(dst);
      std::vector<REAL> back(src.size(), -7.0);
      d_src.set(back);
      bmi.reverse_exchange_from_device(d_dst.ptr, ncomp, d_src.ptr);
      back = d_src.get();
      for (int g : known[rank])
        for (int c = 0; c < ncomp; c++) {
          const REAL got = back[bmi.get_seq_index_from_geom_id(gid(g)) * ncomp + c];
          MC_CHECK(got == dof(g, c), "value of geom ", g, " component ", c, ": ",
                   got, " expected ", dof(g, c));
        }
    };
    exchange();
    for (int rd = 0; rd < rounds; rd++) {
      bool any = false;
      for (int r = 0; r < nr; r++)
        for (int g = 0; g < ng; g++)
          if ((add[rd][r] >> g) & 1)
            any = known[r].insert(g).second || any;
      std::vector<std::pair<int, INT>> v;
      for (int k = 0; k < ng; k++) {
        const int g = (rd + rank) % 2 ? k : ng - 1 - k;
        if ((add[rd][rank] >> g) & 1) {
          v.push_back({owner[g], gid(g)});
          seen.insert(gid(g));
        }
      }
      bmi.extend_exchange_pattern(v);
      const auto nv = version();
      MC_CHECK(any ? nv > ver : nv == ver, "version ", ver, " -> ", nv,
               any ? " although objects were added" : " without new objects");
      ver = nv;
      exchange();
    }
    bmi.free();
    target->free();
  });
  mc::nontrivial();
}
static void iface2() { interface(2, mc_tier ? 3 : 2, 2, 0, true); }
static void iface3() { interface(3, 2, mc_tier ? 2 : 1, 0, true); }
static void iface2s() { interface(2, 2, 1, mc_tier ? 2 : 1, false); }

// ---- surface functions --------------------------------------------------
static void functions(int nr, int nd, int steps, int nopt, int bound) {
  if (bound)
    mc_set_sched_bound(bound);
  else
    mc_set_rank_order(mc::choose(2, "rank_order"));
  const double width = 0.5;
  std::vector<int> dims = nd == 2 ? std::vector<int>{3, 2} : std::vector<int>{2, 1, 2};
  // Destinations, relative: through which face cell a particle leaves
  struct D {
    double p[3];
  };
  const D dest[] = {{{0.4, 0.4, 0.4}},   {{0.1, -0.5, 0.2}}, {{0.9, -0.2, 0.8}},
                    {{1.5, 0.25, 0.3}},  {{0.3, 1.25, 0.1}}, {{-0.5, 0.2, 0.9}},
                    {{-0.1, 0.8, 0.7}}};
  std::vector<std::vector<int>> go(steps, std::vector<int>(nr));
  std::vector<int> mode(steps);
  for (int s = 0; s < steps; s++) {
    mode[s] = mc::choose(5, "mode");
    for (auto &x : go[s])
      x = mc::choose(nopt, "destination");
  }
  std::map<int, std::vector<int>> groups;
  if (nd == 2)
    groups = {{0, {0, 1}}, {5, {3, 2}}};
  else
    groups = {{0, {0, 1, 5}}, {5, {4, 3, 2}}};
  struct Hit {
    int group;
    INT cell;
    REAL q0, q1;
  };
  std::vector<std::vector<Hit>> hits(nr);
  mc::ranks(nr, [&](int rank) {
    World w(dims, 0, 0, width);
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<REAL>("B"), nd), ParticleProp(Sym<REAL>("A"), nd),
                      ParticleProp(Sym<REAL>("Q"), 2), ParticleProp(Sym<REAL>("E"), 2),
                      ParticleProp(Sym<INT>("G"), 1), ParticleProp(Sym<INT>("C"), 1),
                      ParticleProp(Sym<INT>("ID"), 1)};
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::shared_ptr<ParticleGroup> gp = g;
    const int N = 3;
    ParticleSet s(N, spec);
    for (int i = 0; i < N; i++) {
      for (int d = 0; d < nd; d++)
        s[Sym<REAL>("A")][i][d] = s[Sym<REAL>("P")][i][d] =
            (0.4 + 0.05 * i) * dims[d] * width;
      s[Sym<INT>("CELL_ID")][i][0] = 0;
      s[Sym<INT>("ID")][i][0] = rank * N + i;
    }
    if (w.mesh->get_cell_count() > 0)
      g->add_particles_local(s);
    CartesianTrajectoryIntersection cti(w.target, w.mesh, groups, 1e-13);
    cti.prepare_particle_group(gp);
    std::map<int, CartesianHMeshFunctionSharedPtr> f, f2;
    for (auto &x : groups) {
      f[x.first] = cti.create_function(x.first, "DG", 0);
      f2[x.first] = cti.create_function(x.first, "DG", 0);
      for (auto v : f[x.first]->get_dofs())
        MC_CHECK(v == 0.0, "initial dof");
      MC_CHECK(f[x.first]->get_dofs().size() == f[x.first]->cells.size(), "dofs");
    }
    for (int st = 0; st < steps; st++) {
      const int md = mode[st];
      if (md == 1)
        for (auto &x : f)
          cti.function_project_initialise(x.second);
      // positions of this step
      for (int c = 0; c < w.mesh->get_cell_count(); c++) {
        auto B = g->get_cell(Sym<REAL>("B"), c);
        auto Q = g->get_cell(Sym<REAL>("Q"), c);
        auto I = g->get_cell(Sym<INT>("ID"), c);
        for (int r = 0; r < B->nrow; r++) {
          const int k = (int)I->at(r, 0) % N;
          // particle 0: the choice; 1: a shifted choice; 2: stays
          const int o = k == 0 ? go[st][rank] : k == 1 ? (go[st][rank] * 2) % 7 : 0;
          for (int d = 0; d < nd; d++)
            B->at(r, d) = dest[o].p[d] * dims[d] * width;
          Q->at(r, 0) = (REAL)((1 << (rank * N + k)) + 1024 * (st + 1));
          Q->at(r, 1) = (REAL)((1 << (rank * N + k)) * 3);
        }
        g->get_dat(Sym<REAL>("B"))->cell_dat.set_cell(c, B);
        g->get_dat(Sym<REAL>("Q"))->cell_dat.set_cell(c, Q);
      }
      particle_loop(gp,
                    [=](auto P, auto A, auto G) {
                      for (int d = 0; d < nd; d++)
                        P.at(d) = A.at(d);
                      G.at(0) = -1;
                    },
                    Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("A")),
                    Access::write(Sym<INT>("G")))
          ->execute();
      cti.pre_integration(gp);
      particle_loop(gp,
                    [=](auto P, auto B) {
                      for (int d = 0; d < nd; d++)
                        P.at(d) = B.at(d);
                    },
                    Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("B")))
          ->execute();
      auto m = cti.post_integration(gp);
      for (auto &x : m) {
        const INT gi = x.first;
        particle_loop(x.second,
                      [=](auto M, auto G, auto C) {
                        G.at(0) = gi;
                        C.at(0) = M.at_ephemeral(1);
                      },
                      Access::read(BoundaryInteractionSpecification::intersection_metadata),
                      Access::write(Sym<INT>("G")), Access::write(Sym<INT>("C")))
            ->execute();
      }
      auto parts = snapshot(*g);
      mc_race_off(1);
      hits[rank].clear();
      for (auto &p : parts)
        if (p.i.at("G")[0] != -1)
          hits[rank].push_back({(int)p.i.at("G")[0], p.i.at("C")[0],
                                p.r.at("Q")[0], p.r.at("Q")[1]});
      mc_race_off(0);
      MPI_Barrier(MPI_COMM_WORLD);
      mc_race_off(1);
      auto all = hits;
      mc_race_off(0);
      // sum over the particles of all ranks which hit the face cell
      auto sum = [&](int grp, INT cell, int which, bool no0) {
        REAL t = 0;
        for (int r = no0 ? 1 : 0; r < nr; r++)
          for (auto &h : all[r])
            if (h.group == grp && h.cell == cell)
              t += (which == 0 ? h.q0 : which == 1 ? h.q1 : h.q0 + h.q1) / width;
        return t;
      };
      auto check = [&](std::map<int, CartesianHMeshFunctionSharedPtr> &fn, int which,
                       bool no0) {
        for (auto &x : fn) {
          auto dofs = x.second->get_dofs();
          MC_CHECK(dofs.size() == x.second->cells.size(), "number of dofs");
          for (size_t k = 0; k < dofs.size(); k++) {
            const REAL want = sum(x.first, x.second->cells[k], which, no0);
            MC_CHECK(dofs[k] == want, "step ", st, " mode ", md, " group ", x.first,
                     " face cell ", x.second->cells[k], ": ", dofs[k],
                     " expected ", want);
          }
        }
      };
      auto dof = [&](INT cell) { return (REAL)(cell * 2 + 11 + 100 * st); };
      auto set_and_evaluate = [&](bool fill, bool eph) {
        for (auto &x : f) {
          if (fill)
            x.second->fill(4.5 + st + x.first);
          else {
            std::vector<REAL> v;
            for (INT c : x.second->cells)
              v.push_back(dof(c));
            x.second->set_dofs(v);
            MC_CHECK(x.second->get_dofs() == v, "dofs read back");
          }
          auto sg = m.at(x.first);
          if (eph) {
            sg->add_ephemeral_dat(Sym<REAL>("QE"), 2);
            cti.function_evaluate(sg, Sym<REAL>("QE"), 1, true, x.second);
            particle_loop(sg,
                          [=](auto Q, auto E) { E.at(1) = Q.at_ephemeral(1); },
                          Access::read(Sym<REAL>("QE")), Access::write(Sym<REAL>("E")))
                ->execute();
          } else
            cti.function_evaluate(sg, Sym<REAL>("E"), 1, false, x.second);
        }
        for (auto &p : snapshot(*g)) {
          const int grp = (int)p.i.at("G")[0];
          if (grp == -1)
            continue;
          const REAL want = fill ? 4.5 + st + grp : dof(p.i.at("C")[0]);
          MC_CHECK(p.r.at("E")[1] == want, "evaluated at face cell ",
                   p.i.at("C")[0], ": ", p.r.at("E")[1], " expected ", want);
        }
      };
      if (md == 0) {
        for (auto &x : f)
          cti.function_project(m.at(x.first), Sym<REAL>("Q"), 0, false, x.second);
        check(f, 0, false);
      } else if (md == 1) {
        for (auto &x : f) {
          auto sg = m.at(x.first);
          cti.function_project_contribute(sg, Sym<REAL>("Q"), 0, false, x.second);
          sg->add_ephemeral_dat(Sym<REAL>("QE"), 2);
          particle_loop(sg,
                        [=](auto Q, auto E) { E.at_ephemeral(0) = Q.at(1); },
                        Access::read(Sym<REAL>("Q")), Access::write(Sym<REAL>("QE")))
              ->execute();
          cti.function_project_contribute(sg, Sym<REAL>("QE"), 0, true, x.second);
          cti.function_project_finalise(x.second);
        }
        check(f, 2, false);
      } else if (md == 2) {
        set_and_evaluate(false, false);
      } else if (md == 3) {
        set_and_evaluate(true, true);
        for (auto &x : f2)
          cti.function_project(m.at(x.first), Sym<REAL>("Q"), 1, false, x.second);
        check(f2, 1, false);
      } else {
        // a rank may contribute nothing
        for (auto &x : f)
          cti.function_project(rank == 0 ? nullptr : m.at(x.first), Sym<REAL>("Q"),
                               1, false, x.second);
        check(f, 1, true);
        // evaluate what was projected
        for (auto &x : f)
          cti.function_evaluate(m.at(x.first), Sym<REAL>("E"), 0, false, x.second);
        for (auto &p : snapshot(*g))
          if (p.i.at("G")[0] != -1)
            MC_CHECK(p.r.at("E")[0] == sum((int)p.i.at("G")[0], p.i.at("C")[0], 1, true),
                     "evaluated projection at face cell ", p.i.at("C")[0]);
      }
      MPI_Barrier(MPI_COMM_WORLD);
    }
    cti.free();
    gp = nullptr;
    g = nullptr;
  });
  mc::nontrivial();
}
static void fun1() { functions(1, 2, mc_tier ? 3 : 2, 7, 0); }
static void fun2() { functions(2, 2, 2, mc_tier ? 6 : 4, 0); }
static void fun2_3d() { functions(2, 3, mc_tier ? 2 : 1, 7, 0); }
static void fun3() { functions(3, 2, 1, mc_tier ? 7 : 4, 0); }
static void fun2s() { functions(2, 2, 1, 3, 1); }

const mc_scenario mc_scenarios[] = {
    {"interface_2_ranks", iface2},  {"interface_3_ranks", iface3},
    {"interface_schedules", iface2s}, {"functions_1_rank", fun1},
    {"functions_2_ranks", fun2},    {"functions_2_ranks_3d", fun2_3d},
    {"functions_3_ranks", fun3},    {"functions_schedules", fun2s}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
