// Boundary conditions of the Cartesian mesh: periodic wrapping, trajectory
// intersection, truncation and reflection.
#include "ranks.hpp"
using namespace H;

static const double TOL = 1e-11;

// ---- periodic -----------------------------------------------------------
static void periodic() {
  const int ndim = 1 + mc::choose(3, "ndim");
  const int which = mc::choose(3, "extent");
  const double ext = which == 0 ? 1.0 : which == 1 ? 0.3 : 2.5;
  std::vector<int> dims;
  for (int d = 0; d < ndim; d++)
    dims.push_back(1 + (d + which) % 3);
  const int kind = mc::choose(4, "constructor");
  int mask = (1 << ndim) - 1;
  if (kind >= 2)
    mask = mc::choose(1 << ndim, "mask");
  if (ndim == 1) // CartesianHMesh is 2D or 3D; 1D only as a degenerate dim
    dims.push_back(2);
  const int nd = (int)dims.size();
  if (ndim == 1)
    mask |= 2;
  World w(dims, 0, 0, ext);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd, true),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<REAL>("Q"), nd),
                    ParticleProp(Sym<INT>("ID"), 1)};
  auto g = std::make_shared<TG>(w.domain, spec, w.target);
  // relative positions, in units of the extent of the dimension
  const double rel[] = {0.0, 0.25, 0.5, 0.999, 1.0, 1.25, 1.999, 2.0, 3.5,
                        -0.001, -0.25, -0.999, -1.0, -1.5, -2.0, -2.75,
                        17.3, -17.3, 1000.125, -1000.125, 1e-17, -1e-17};
  const int nrel = sizeof(rel) / sizeof(*rel);
  std::vector<std::array<double, 3>> pos;
  for (int i = 0; i < nrel; i++)
    for (int j = 0; j < nrel; j++)
      for (int k = 0; k < (nd == 3 ? (mc_tier ? nrel : 3) : 1); k++) {
        std::array<double, 3> p{0, 0, 0};
        const int t[3] = {i, j, nd == 3 && !mc_tier ? (i * 7 + j * 3 + k * 5) % nrel : k};
        for (int d = 0; d < nd; d++)
          p[d] = rel[t[d]] * ext * dims[d];
        pos.push_back(p);
      }
  ParticleSet s(pos.size(), spec);
  const int nc = w.mesh->get_cell_count();
  for (size_t i = 0; i < pos.size(); i++) {
    for (int d = 0; d < nd; d++) {
      s[Sym<REAL>("P")][i][d] = pos[i][d];
      s[Sym<REAL>("Q")][i][d] = rval(i, d);
    }
    s[Sym<INT>("CELL_ID")][i][0] = i % nc;
    s[Sym<INT>("ID")][i][0] = i;
  }
  g->add_particles_local(s);
  std::vector<int> masks;
  for (int d = 0; d < nd; d++)
    masks.push_back((mask >> d) & 1 ? 1 + d : 0);
  std::shared_ptr<ParticleGroup> gp = g;
  std::shared_ptr<CartesianPeriodic> pbc;
  if (kind == 0)
    pbc = std::make_shared<CartesianPeriodic>(w.target, w.mesh, g->position_dat);
  else if (kind == 1)
    pbc = std::make_shared<CartesianPeriodic>(w.mesh, gp);
  else if (kind == 2)
    pbc = std::make_shared<CartesianPeriodic>(w.target, w.mesh,
                                              g->position_dat, masks);
  else
    pbc = std::make_shared<CartesianPeriodic>(w.mesh, gp, masks);
  for (int rep = 0; rep < 2; rep++) {
    pbc->execute();
    auto now = snapshot(*g);
    MC_CHECK(now.size() == pos.size(), "particle count");
    for (auto &p : now) {
      const int i = (int)p.i.at("ID").at(0);
      for (int d = 0; d < nd; d++) {
        const double L = ext * dims[d], x = p.r.at("P")[d], y = pos[i][d];
        MC_CHECK(p.r.at("Q")[d] == rval(i, d), "other property changed");
        if (kind >= 2 && !((mask >> d) & 1)) {
          MC_CHECK(x == y, "dimension ", d, " without periodic boundary moved ",
                   y, " to ", x);
          continue;
        }
        MC_CHECK(x >= 0.0 && x < L, "wrapped position ", x, " of ", y,
                 " outside [0,", L, ")");
        const double q = (y - x) / L;
        MC_CHECK(std::fabs(q - std::round(q)) < 1e-9, "position ", y,
                 " wrapped to ", x, " which is not a periodic image");
        if (y >= 0.0 && y < L)
          MC_CHECK(std::fabs(x - y) < 1e-12 * L, "position ", y,
                   " inside the domain moved to ", x);
      }
    }
  }
  mc::outcome(mask * 8 + kind);
  mc::nontrivial();
}

// ---- trajectories -------------------------------------------------------
struct Traj {
  std::array<double, 3> a, b;
};
static int face_of(int d, int side) {
  static const int f[3][2] = {{3, 1}, {0, 2}, {4, 5}};
  return f[d][side];
}
struct Geo {
  int nd, nf;
  std::vector<int> n; // cells per dimension
  double w;           // cell width
  double L(int d) const { return n[d] * w; }
  // first point at which the segment leaves the domain
  bool exit(const Traj &t, double &s, std::set<int> &faces) const {
    s = 2.0;
    std::map<int, double> at;
    for (int d = 0; d < nd; d++)
      for (int side = 0; side < 2; side++) {
        const double pl = side ? L(d) : 0.0;
        const bool out = side ? t.b[d] >= pl : t.b[d] <= pl;
        if (out) {
          const double x = (pl - t.a[d]) / (t.b[d] - t.a[d]);
          at[face_of(d, side)] = x;
          s = std::min(s, x);
        }
      }
    for (auto &x : at)
      if (x.second - s < 1e-12)
        faces.insert(x.first);
    return !faces.empty();
  }
  int dim_of(int f) const { return f == 1 || f == 3 ? 0 : f == 0 || f == 2 ? 1 : 2; }
  int side_of(int f) const { return f == 1 || f == 2 || f == 5; }
  // cells of face f: extents in the two remaining dims
  INT offset(int f) const {
    INT o = 0;
    for (int k = 0; k < f; k++) {
      INT m = 1;
      for (int d = 0; d < nd; d++)
        if (d != dim_of(k))
          m *= n[d];
      o += m;
    }
    return o;
  }
  // Set of face cells of face f containing the point
  std::set<INT> cells(int f, const std::array<double, 3> &x) const {
    std::vector<std::set<INT>> c;
    std::vector<int> m;
    for (int d = 0; d < nd; d++)
      if (d != dim_of(f)) {
        std::set<INT> q;
        for (int k = 0; k < n[d]; k++)
          if (x[d] > k * w - 1e-9 && x[d] < (k + 1) * w + 1e-9)
            q.insert(k);
        c.push_back(q);
        m.push_back(n[d]);
      }
    std::set<INT> r;
    for (INT i : c[0])
      if (c.size() == 1)
        r.insert(offset(f) + i);
      else
        for (INT j : c[1])
          r.insert(offset(f) + i + j * m[0]);
    return r;
  }
};

static void trajectories(int nd, bool small) {
  static const std::vector<std::vector<int>> D2 = {{1, 1}, {2, 3}, {3, 2}};
  static const std::vector<std::vector<int>> D3 = {{1, 1, 1}, {2, 1, 3}, {1, 2, 2}};
  const auto dims = (nd == 2 ? D2 : D3)[mc::choose(3, "dims")];
  const int sub = mc::choose(2, "subdivision");
  const double ext = mc::choose(2, "extent") ? 0.7 : 1.0;
  const int grouping = mc::choose(4, "grouping");
  const int use_sub = mc::choose(2, "sub_group");
  const int act = mc::choose(3, "action"); // none, truncate, reflect
  if (small && (sub || use_sub))
    mc_discard();
  std::map<int, std::vector<int>> groups;
  const int nf = 2 * nd;
  for (int f = 0; f < nf; f++) {
    if (grouping == 0)
      groups[0].push_back(f);
    else if (grouping == 1)
      groups[f % 2 ? 3 : -2].push_back(f);
    else if (grouping == 2)
      groups[10 + (nf - f)].push_back(f);
    else if (f == 1 || f == nf - 1 || f == 0) // faces 2.. belong to no group
      groups[f == 0 ? 7 : 1].push_back(f);
  }
  auto group_of = [&](int f) {
    for (auto &x : groups)
      for (int q : x.second)
        if (q == f)
          return x.first;
    return -1000;
  };
  World w(dims, sub, 0, ext);
  Geo G;
  G.nd = nd;
  G.nf = nf;
  G.w = ext / (1 << sub);
  for (int d : dims)
    G.n.push_back(d << sub);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd, true),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<REAL>("V"), nd),
                    ParticleProp(Sym<REAL>("TSP"), 2),
                    ParticleProp(Sym<REAL>("B"), nd),
                    ParticleProp(Sym<REAL>("IP"), nd),
                    ParticleProp(Sym<REAL>("IN"), nd),
                    ParticleProp(Sym<INT>("MD"), 2),
                    ParticleProp(Sym<INT>("HIT"), 1),
                    ParticleProp(Sym<INT>("SEL"), 1),
                    ParticleProp(Sym<INT>("ID"), 1)};
  auto g = std::make_shared<TG>(w.domain, spec, w.target);
  // all pairs of a start point strictly inside and an end point, relative
  const std::vector<double> as2 = {0.125, 0.5, 0.8125};
  const std::vector<double> bs2 = {-1.5, -0.125, 0.0, 0.3, 0.75, 1.0, 1.1, 2.75};
  const std::vector<double> as3 = {0.125, 0.8125};
  const std::vector<double> bs3 = {-0.125, 0.0, 0.3, 1.0, 2.75};
  const auto &as = nd == 2 ? as2 : as3;
  const auto &bs = nd == 2 ? bs2 : bs3;
  std::vector<Traj> tr;
  std::vector<int> ia(nd, 0), ib(nd, 0);
  const int na = (int)std::pow(as.size(), nd), nb = (int)std::pow(bs.size(), nd);
  for (int i = 0; i < na; i++)
    for (int j = 0; j < nb; j++) {
      Traj t{{0, 0, 0}, {0, 0, 0}};
      int x = i, y = j;
      for (int d = 0; d < nd; d++) {
        t.a[d] = as[x % as.size()] * G.L(d);
        t.b[d] = bs[y % bs.size()] * G.L(d);
        x /= as.size();
        y /= bs.size();
      }
      tr.push_back(t);
    }
  const int N = (int)tr.size(), nc = w.mesh->get_cell_count();
  ParticleSet s(N, spec);
  for (int i = 0; i < N; i++) {
    for (int d = 0; d < nd; d++) {
      s[Sym<REAL>("P")][i][d] = tr[i].a[d];
      s[Sym<REAL>("B")][i][d] = tr[i].b[d];
      s[Sym<REAL>("V")][i][d] = (tr[i].b[d] - tr[i].a[d]) * 2.0 + 0.125;
    }
    s[Sym<INT>("CELL_ID")][i][0] = (i * 7) % nc;
    s[Sym<INT>("ID")][i][0] = i;
    s[Sym<INT>("SEL")][i][0] = (i % 3) != 1;
    s[Sym<INT>("HIT")][i][0] = 0;
    s[Sym<REAL>("TSP")][i][0] = 0.75;
    s[Sym<REAL>("TSP")][i][1] = 0.5;
  }
  g->add_particles_local(s);
  std::shared_ptr<ParticleGroup> gp = g;
  auto sg = particle_sub_group(gp, [=](auto S) { return S.at(0) == 1; },
                               Access::read(Sym<INT>("SEL")));
  {
    CartesianTrajectoryIntersection cti(w.target, w.mesh, groups, 1e-13);
    cti.prepare_particle_group(gp);
    MC_CHECK(g->contains_dat(CartesianTrajectoryIntersection::previous_position_sym),
             "previous position property");
    // earlier step: the previous positions must be refreshed by every call
    cti.pre_integration(gp);
    particle_loop(gp, [=](auto P) { for (int d = 0; d < nd; d++) P.at(d) += 0.0; },
                  Access::write(Sym<REAL>("P")))->execute();
    if (use_sub)
      cti.pre_integration(sg);
    else
      cti.pre_integration(gp);
    particle_loop(gp,
                  [=](auto P, auto B) {
                    for (int d = 0; d < nd; d++)
                      P.at(d) = B.at(d);
                  },
                  Access::write(Sym<REAL>("P")), Access::read(Sym<REAL>("B")))
        ->execute();
    auto m = use_sub ? cti.post_integration(sg) : cti.post_integration(gp);
    MC_CHECK(m.size() == groups.size(), "returned groups ", m.size());
    for (auto &x : m) {
      MC_CHECK(groups.count(x.first), "unknown group ", x.first);
      MC_CHECK(contains_boundary_interaction_data(x.second, nd), "ephemeral dats");
      const int gid = x.first;
      particle_loop(x.second,
                    [=](auto IPD, auto IND, auto MDD, auto IP, auto IN, auto MD,
                        auto HIT) {
                      for (int d = 0; d < nd; d++) {
                        IP.at(d) = IPD.at_ephemeral(d);
                        IN.at(d) = IND.at_ephemeral(d);
                      }
                      MD.at(0) = MDD.at_ephemeral(0);
                      MD.at(1) = MDD.at_ephemeral(1);
                      HIT.at(0) += 100000 + gid;
                    },
                    Access::read(BoundaryInteractionSpecification::intersection_point),
                    Access::read(BoundaryInteractionSpecification::intersection_normal),
                    Access::read(BoundaryInteractionSpecification::intersection_metadata),
                    Access::write(Sym<REAL>("IP")), Access::write(Sym<REAL>("IN")),
                    Access::write(Sym<INT>("MD")), Access::write(Sym<INT>("HIT")))
          ->execute();
    }
    const double reset = 1e-3;
    if (act == 1) {
      BoundaryTruncation bt(nd, reset);
      for (auto &x : m)
        bt.execute(x.second, Sym<REAL>("P"), Sym<REAL>("TSP"),
                   CartesianTrajectoryIntersection::previous_position_sym);
    }
    if (act == 2) {
      BoundaryReflection br(nd, reset);
      for (auto &x : m)
        br.execute(x.second, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"),
                   CartesianTrajectoryIntersection::previous_position_sym);
    }
    auto now = snapshot(*g);
    MC_CHECK((int)now.size() == N, "particle count");
    long hits = 0;
    for (auto &p : now) {
      const int i = (int)p.i.at("ID")[0];
      const Traj &t = tr[i];
      double sx = 0;
      std::set<int> faces;
      bool out = G.exit(t, sx, faces);
      if (use_sub && !p.i.at("SEL")[0])
        out = false;
      std::set<int> gs;
      for (int f : faces)
        gs.insert(group_of(f));
      auto P = p.r.at("P"), V = p.r.at("V"), TSP = p.r.at("TSP");
      const INT hit = p.i.at("HIT")[0];
      auto untouched = [&](const char *why) {
        for (int d = 0; d < nd; d++) {
          MC_CHECK(P[d] == t.b[d], why, ": position changed, particle ", i);
          MC_CHECK(V[d] == (t.b[d] - t.a[d]) * 2.0 + 0.125, why, ": velocity");
        }
        MC_CHECK(TSP[0] == 0.75 && TSP[1] == 0.5, why, ": time step");
      };
      if (!out) {
        MC_CHECK(hit == 0, "particle ", i, " which does not leave is in group ",
                 hit - 100000);
        untouched("not leaving");
        continue;
      }
      if (hit == 0) {
        MC_CHECK(gs.count(-1000), "particle ", i, " which leaves through face ",
                 *faces.begin(), " is in no group");
        untouched("no group");
        continue;
      }
      hits++;
      MC_CHECK(gs.count((int)hit - 100000), "particle ", i, " leaves through face ",
               *faces.begin(), " but is in group ", hit - 100000);
      MC_CHECK(p.i.at("MD")[0] == hit - 100000, "metadata group");
      std::array<double, 3> x{0, 0, 0};
      for (int d = 0; d < nd; d++) {
        x[d] = p.r.at("IP")[d];
        MC_CHECK(std::fabs(x[d] - (t.a[d] + sx * (t.b[d] - t.a[d]))) < TOL,
                 "intersection point of particle ", i, " dim ", d, ": ", x[d]);
      }
      // face, normal and face cell have to belong together
      bool ok = false;
      int face = -1;
      for (int f : faces) {
        if (group_of(f) != hit - 100000)
          continue;
        bool nrm = true;
        for (int d = 0; d < nd; d++) {
          const double want = d == G.dim_of(f) ? (G.side_of(f) ? -1.0 : 1.0) : 0.0;
          nrm = nrm && p.r.at("IN")[d] == want;
        }
        if (nrm && G.cells(f, x).count(p.i.at("MD")[1])) {
          ok = true;
          face = f;
        }
      }
      MC_CHECK(ok, "normal or face cell ", p.i.at("MD")[1],
               " does not match the face hit by particle ", i, ": ", show(p));
      if (act == 0) {
        untouched("no action");
        continue;
      }
      // truncation
      double on = 0, fn = 0;
      for (int d = 0; d < nd; d++) {
        on += (t.a[d] - x[d]) * (t.a[d] - x[d]);
        fn += (t.b[d] - t.a[d]) * (t.b[d] - t.a[d]);
      }
      on = std::sqrt(on);
      fn = std::sqrt(fn);
      for (int d = 0; d < nd; d++) {
        const double want = x[d] + (t.a[d] - x[d]) * (reset / on);
        MC_CHECK(std::fabs(P[d] - want) < TOL, "truncated position of ", i,
                 " dim ", d, ": ", P[d], " expected ", want);
        MC_CHECK(P[d] > 0.0 && P[d] < G.L(d), "truncated position outside");
      }
      const double prop = on / fn;
      MC_CHECK(std::fabs(TSP[1] - 0.5 * prop) < TOL, "last time step of ", i, ": ",
               TSP[1]);
      MC_CHECK(std::fabs(TSP[0] - (0.25 + 0.5 * prop)) < TOL, "time step of ", i);
      for (int d = 0; d < nd; d++) {
        double v = (t.b[d] - t.a[d]) * 2.0 + 0.125;
        if (act == 2 && d == G.dim_of(face))
          v = -v;
        MC_CHECK(std::fabs(V[d] - v) < TOL, "velocity of ", i, " dim ", d);
      }
    }
    MC_CHECK(hits > 0, "no particle hit the boundary");
    mc::outcome(hits);
    sg = nullptr;
    cti.free();
  }
  mc::nontrivial();
}
static void traj2() { trajectories(2, false); }
static void traj3() { trajectories(3, !mc_tier); }

// ---- truncation and reflection of given interactions --------------------
// Any intersection data may be supplied (ephemeral dats on a sub group), with
// any normal direction, in 1D, 2D and 3D.
static void interactions() {
  const int nd = 1 + mc::choose(3, "ndim");
  const int which = mc::choose(2, "reflect");
  const int rs = mc::choose(3, "reset");
  const double reset = rs == 0 ? 1e-10 : rs == 1 ? 1e-2 : 0.5;
  World w({2, 2}, 0, 0, 4.0);
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), nd == 1 ? 2 : nd, true),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<REAL>("PP"), nd),
                    ParticleProp(Sym<REAL>("X"), nd),
                    ParticleProp(Sym<REAL>("NN"), nd),
                    ParticleProp(Sym<REAL>("V"), nd),
                    ParticleProp(Sym<REAL>("TSP"), 2),
                    ParticleProp(Sym<INT>("ID"), 1)};
  auto g = std::make_shared<TG>(w.domain, spec, w.target);
  struct C {
    double a[3], b[3], n[3], s;
  };
  std::vector<C> cs;
  const double av[][3] = {{1, 1, 1}, {0.5, -0.25, 2}};
  const double bv[][3] = {{3, 1, 1}, {-1, 2, 0.5}, {1, 1.5, -4}, {0.5, -0.25, 2}, {1, 1, 1}};
  const double nv[][3] = {{1, 0, 0}, {-1, 0, 0}, {0.6, 0.8, 0}, {0, -1, 0}, {0, 0.28, -0.96}};
  const double sv[] = {0.0, 1e-13, 0.25, 0.5, 1.0};
  for (auto &a : av)
    for (auto &b : bv)
      for (auto &n : nv)
        for (double s : sv) {
          C c;
          for (int d = 0; d < 3; d++) {
            c.a[d] = a[d];
            c.b[d] = b[d];
            c.n[d] = n[d];
          }
          if (nd == 1)
            c.n[0] = n[0] < 0 ? -1 : 1;
          if (nd == 2 && n[2] != 0) {
            c.n[0] = 0.28;
            c.n[1] = -0.96;
          }
          c.s = s;
          cs.push_back(c);
        }
  const int N = (int)cs.size();
  ParticleSet s(N, spec);
  for (int i = 0; i < N; i++) {
    for (int d = 0; d < nd; d++) {
      s[Sym<REAL>("P")][i][d] = cs[i].b[d];
      s[Sym<REAL>("PP")][i][d] = cs[i].a[d];
      s[Sym<REAL>("X")][i][d] = cs[i].a[d] + cs[i].s * (cs[i].b[d] - cs[i].a[d]);
      s[Sym<REAL>("NN")][i][d] = cs[i].n[d];
      s[Sym<REAL>("V")][i][d] = d + 1.5 * (i % 5) - 2.0;
    }
    s[Sym<INT>("CELL_ID")][i][0] = i % 4;
    s[Sym<INT>("ID")][i][0] = i;
    s[Sym<REAL>("TSP")][i][0] = 1.0 - 0.125 * (i % 2);
    s[Sym<REAL>("TSP")][i][1] = 0.25;
  }
  g->add_particles_local(s);
  std::shared_ptr<ParticleGroup> gp = g;
  auto sg = static_particle_sub_group(
      gp, [=](auto I) { return I.at(0) % 4 != 2; }, Access::read(Sym<INT>("ID")));
  MC_CHECK(!contains_boundary_interaction_data(sg, nd), "data without dats");
  add_boundary_interaction_ephemeral_dats(sg, nd);
  MC_CHECK(contains_boundary_interaction_data(sg, nd), "data with dats");
  MC_CHECK(!contains_boundary_interaction_data(sg, nd + 1), "wrong dimension");
  MC_CHECK(contains_boundary_interaction_data(sg), "any dimension");
  particle_loop(
      sg,
      [=](auto IPD, auto IND, auto X, auto NN) {
        for (int d = 0; d < nd; d++) {
          IPD.at_ephemeral(d) = X.at(d);
          IND.at_ephemeral(d) = NN.at(d);
        }
      },
      Access::write(BoundaryInteractionSpecification::intersection_point),
      Access::write(BoundaryInteractionSpecification::intersection_normal),
      Access::read(Sym<REAL>("X")), Access::read(Sym<REAL>("NN")))
      ->execute();
  if (which)
    BoundaryReflection(nd, reset)
        .execute(sg, Sym<REAL>("P"), Sym<REAL>("V"), Sym<REAL>("TSP"), Sym<REAL>("PP"));
  else
    BoundaryTruncation(nd, reset)
        .execute(sg, Sym<REAL>("P"), Sym<REAL>("TSP"), Sym<REAL>("PP"));
  for (auto &p : snapshot(*g)) {
    const int i = (int)p.i.at("ID")[0];
    const C &c = cs[i];
    const bool in = i % 4 != 2;
    double on = 0, fn = 0, vn = 0;
    std::vector<double> x(nd), v(nd);
    for (int d = 0; d < nd; d++) {
      x[d] = c.a[d] + c.s * (c.b[d] - c.a[d]);
      v[d] = d + 1.5 * (i % 5) - 2.0;
      vn += v[d] * c.n[d];
      on += (c.a[d] - x[d]) * (c.a[d] - x[d]);
      fn += (c.b[d] - c.a[d]) * (c.b[d] - c.a[d]);
    }
    on = std::sqrt(on);
    fn = std::sqrt(fn);
    const double t0 = 1.0 - 0.125 * (i % 2), t1 = 0.25;
    const double prop = fn > 1e-16 ? std::min(1.0, on / fn) : 1.0;
    // distance from the intersection point towards the previous position
    const double back = std::min(on, reset);
    for (int d = 0; d < nd; d++) {
      const double want = !in ? c.b[d]
                          : on < 1e-14 ? c.a[d]
                                       : x[d] + (c.a[d] - x[d]) * (back / on);
      MC_CHECK(std::fabs(p.r.at("P")[d] - want) < TOL, "position of ", i, " dim ",
               d, ": ", p.r.at("P")[d], " expected ", want);
      const double wv = in && which ? v[d] - 2 * vn * c.n[d] : v[d];
      MC_CHECK(std::fabs(p.r.at("V")[d] - wv) < TOL, "velocity of ", i, " dim ", d);
      MC_CHECK(p.r.at("PP")[d] == c.a[d], "previous position changed");
    }
    MC_CHECK(std::fabs(p.r.at("TSP")[1] - (in ? t1 * prop : t1)) < TOL,
             "last time step of ", i, " ", p.r.at("TSP")[1]);
    MC_CHECK(std::fabs(p.r.at("TSP")[0] - (in ? t0 - t1 + t1 * prop : t0)) < TOL,
             "time step of ", i);
  }
  mc::nontrivial();
  mc::outcome(nd * 8 + which * 4 + rs);
}

const mc_scenario mc_scenarios[] = {{"periodic", periodic},
                                    {"trajectories_2d", traj2},
                                    {"trajectories_3d", traj3},
                                    {"interactions", interactions}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
