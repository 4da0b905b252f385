// MC-VARIANT: p
// Particle trajectories and labelled edges of an unstructured mesh
// (PetscInterface::BoundaryInteraction2D), and labelling of edges.
#include "petsc.hpp"
using namespace H;
typedef __int128 xl;

static Mesh2D pick_mesh(int R) {
  static const int PAT[6][4] = {{0, 0, 0, 0}, {1, 0, 3, 2}, {1, 2, 2, 1},
                                {3, 0, 2, 1}, {0, 2, 1, 3}, {2, 1, 0, 0}};
  static const int VAR[4][2] = {{0, 0}, {1, 1}, {2, 2}, {3, 0}};
  const int n = mc_tier ? 6 : R == 1 ? 4 : 3;
  const int k = mc::choose(n, "cells"), v = mc::choose(mc_tier ? 4 : R == 1 ? 3 : 2,
                                                       "geometry");
  auto m = grid_mesh(2, 2, std::vector<int>(PAT[k], PAT[k] + 4));
  static const ll MV[4][2] = {{0, 0}, {2, 1}, {-1, 2}, {0, -2}};
  const int a = VAR[v][0];
  m.vert[4] = {m.vert[4][0] + MV[a][0], m.vert[4][1] + MV[a][1]};
  // unless the mesh is plain one outer side is slanted too
  if (a)
    m.vert[5] = {m.vert[5][0] + 3, m.vert[5][1]};
  transform(m, VAR[v][1]);
  compact(m);
  m.find_edges();
  return m;
}
// 0: none; 1: the boundary; 2: the boundary, a label for every direction;
// 3: parts of the boundary and an edge inside
static void set_labels(Mesh2D &m, int how) {
  int k = 0;
  bool inner = false;
  for (auto &e : m.edge) {
    e.label = 0;
    if (how == 0)
      continue;
    if (e.ncell == 1) {
      if (how == 1)
        e.label = 1;
      else if (how == 2)
        e.label = 1 + (m.vert[e.a][0] == m.vert[e.b][0]) +
                  2 * (m.vert[e.a][0] + m.vert[e.b][0] +
                           m.vert[e.a][1] + m.vert[e.b][1] >
                       2 * Q);
      else if (k++ % 2)
        e.label = 2;
    } else if (how == 3 && !inner) {
      e.label = 7;
      inner = true;
    }
  }
}
typedef std::map<PetscInt, std::vector<PetscInt>> Groups;
static Groups pick_groups(int k) {
  switch (k) {
  case 0:
    return {{0, {1, 2, 3, 4, 7}}};
  case 1:
    return {{3, {1, 3}}, {5, {2}}, {9, {7, 4}}};
  default:
    return {{0, {2}}, {1, {99}}, {100000, {1}}};
  }
}

struct Hit {
  int edge;
  xl num, den; // position along the trajectory, den > 0
  bool strict;
};
// every labelled edge the closed trajectory p -> q meets in one point
static std::vector<Hit> hits(const Mesh2D &m, const std::vector<int> &group,
                             const Pt &p, const Pt &q) {
  std::vector<Hit> r;
  const ll dx = q[0] - p[0], dy = q[1] - p[1];
  for (size_t i = 0; i < m.edge.size(); i++) {
    if (group[i] < 0)
      continue;
    const Pt &a = m.vert[m.edge[i].a], &b = m.vert[m.edge[i].b];
    const ll ex = b[0] - a[0], ey = b[1] - a[1];
    ll den = dx * ey - dy * ex;
    if (den == 0)
      continue;
    ll t = (a[0] - p[0]) * ey - (a[1] - p[1]) * ex;
    ll s = (a[0] - p[0]) * dy - (a[1] - p[1]) * dx;
    if (den < 0) {
      den = -den;
      t = -t;
      s = -s;
    }
    if (t < 0 || t > den || s < 0 || s > den)
      continue;
    r.push_back({(int)i, t, den, t > 0 && t < den && s > 0 && s < den});
  }
  return r;
}

struct Trajectories {
  std::vector<Pt> p, q;
};
struct Checker {
  DMWorld &w;
  ParticleGroupSharedPtr g;
  std::vector<int> edge_id; // edge of the definition -> global index
  std::map<INT, int> edge_of;
  bool inexact;

  Checker(DMWorld &w, ParticleGroupSharedPtr g) : w(w), g(g) {
    auto &m = w.m;
    auto dmh = w.mesh->dmh;
    PetscInt a, b;
    dmh->get_boundary_stratum(&a, &b);
    std::map<std::vector<Pt>, int> id;
    for (size_t i = 0; i < m.edge.size(); i++) {
      std::vector<Pt> k = {m.vert[m.edge[i].a], m.vert[m.edge[i].b]};
      std::sort(k.begin(), k.end());
      id[k] = i;
    }
    std::vector<int> mine(m.edge.size(), -1);
    edge_id.resize(m.edge.size());
    std::vector<std::vector<REAL>> V;
    for (PetscInt e = a; e < b; e++) {
      dmh->get_generic_vertices(e, V);
      auto k = int_points(m, V);
      std::sort(k.begin(), k.end());
      mine[id.at(k)] = dmh->get_point_global_index(e);
    }
    MPI_Allreduce(mine.data(), edge_id.data(), mine.size(), MPI_INT, MPI_MAX,
                  MPI_COMM_WORLD);
    for (size_t i = 0; i < edge_id.size(); i++)
      edge_of[edge_id[i]] = i;
    inexact = !m.exact;
  }

  // Reported hits are collected in dats of the particles.
  void collect(std::map<PetscInt, ParticleSubGroupSharedPtr> &r,
               const Groups &groups) {
    MC_CHECK(r.size() == groups.size(), "result has ", r.size(), " groups");
    particle_loop(
        g,
        [=](auto N, auto M) {
          N.at(0) = 0;
          M.at(0) = -1;
          M.at(1) = -1;
          M.at(2) = -1;
        },
        Access::write(Sym<INT>("N")), Access::write(Sym<INT>("M")))
        ->execute();
    for (auto &x : r) {
      MC_CHECK(groups.count(x.first), "unknown group ", x.first);
      const INT key = x.first;
      particle_loop(
          x.second,
          [=](auto N, auto M, auto X, auto IP, auto IN, auto IM) {
            N.at(0) += 1;
            M.at(0) = key;
            M.at(1) = IM.at_ephemeral(0);
            M.at(2) = IM.at_ephemeral(1);
            for (int d = 0; d < 2; d++) {
              X.at(d) = IP.at_ephemeral(d);
              X.at(2 + d) = IN.at_ephemeral(d);
            }
          },
          Access::write(Sym<INT>("N")), Access::write(Sym<INT>("M")),
          Access::write(Sym<REAL>("X")),
          Access::read(BoundaryInteractionSpecification::intersection_point),
          Access::read(BoundaryInteractionSpecification::intersection_normal),
          Access::read(BoundaryInteractionSpecification::intersection_metadata))
          ->execute();
    }
  }
  void normals(PI::BoundaryInteraction2D &b) {
    auto mapper = b.get_device_normal_mapper();
    const INT none = 1000003;
    particle_loop(
        g,
        [=](auto M, auto Y, auto F) {
          REAL *n = nullptr;
          F.at(0) = 0;
          F.at(1) = mapper.get(none, &n);
          if (M.at(0) >= 0) {
            F.at(0) = mapper.get(M.at(2), &n);
            if (F.at(0)) {
              Y.at(0) = n[0];
              Y.at(1) = n[1];
            }
          }
        },
        Access::read(Sym<INT>("M")), Access::write(Sym<REAL>("Y")),
        Access::write(Sym<INT>("F")))
        ->execute();
  }
  // selected(id): the particle was passed to the interaction
  int check(const Trajectories &t, const Groups &groups, REAL tol, int modulus) {
    auto &m = w.m;
    std::vector<int> group(m.edge.size(), -1);
    for (size_t i = 0; i < m.edge.size(); i++)
      for (auto &x : groups)
        for (auto l : x.second)
          if (m.edge[i].label == l)
            group[i] = x.first;
    int n = 0;
    for (int c = 0; c < w.mesh->get_cell_count(); c++) {
      auto I = g->get_cell(Sym<INT>("ID"), c), N = g->get_cell(Sym<INT>("N"), c),
           M = g->get_cell(Sym<INT>("M"), c), F = g->get_cell(Sym<INT>("F"), c);
      auto X = g->get_cell(Sym<REAL>("X"), c), Y = g->get_cell(Sym<REAL>("Y"), c),
           PP = g->get_cell(Sym<REAL>("P"), c);
      for (int r = 0; r < I->nrow; r++) {
        const INT i = I->at(r, 0);
        const Pt &p = t.p.at(i), &q = t.q.at(i);
        MC_CHECK(PP->at(r, 0) == m.X(q[0]) && PP->at(r, 1) == m.Y(q[1]),
                 "post_integration changed a position");
        MC_CHECK(F->at(r, 1) == 0, "normal of an edge that does not exist");
        const bool sel = modulus == 1 || i % modulus == 0;
        auto desc = [&] {
          std::ostringstream o;
          o << "particle (" << p[0] << "," << p[1] << ") -> (" << q[0] << ","
            << q[1] << ")";
          return o.str();
        };
        MC_CHECK(N->at(r, 0) <= 1, desc(), " is in ", N->at(r, 0), " groups");
        if (!sel) {
          MC_CHECK(N->at(r, 0) == 0, desc(), " was not passed but is reported");
          continue;
        }
        auto h = hits(m, group, p, q);
        // the first crossing that cannot be missed
        const Hit *first = nullptr;
        for (auto &x : h)
          if (x.strict || tol > 0)
            if (!first || x.num * first->den < first->num * x.den)
              first = &x;
        if (N->at(r, 0) == 0) {
          MC_CHECK(!first, desc(), " crosses edge (", first ? m.vert[m.edge[first->edge].a][0] : 0,
                   ",", first ? m.vert[m.edge[first->edge].a][1] : 0, ")-(",
                   first ? m.vert[m.edge[first->edge].b][0] : 0, ",",
                   first ? m.vert[m.edge[first->edge].b][1] : 0,
                   ") but is not reported");
          continue;
        }
        n++;
        MC_CHECK(edge_of.count(M->at(r, 2)), desc(), " hits unknown edge ",
                 M->at(r, 2));
        const int e = edge_of.at(M->at(r, 2));
        const Hit *got = nullptr;
        for (auto &x : h)
          if (x.edge == e)
            got = &x;
        if (!got && inexact)
          continue; // parallel up to rounding
        MC_CHECK(got, desc(), " does not meet the edge it is reported for");
        MC_CHECK(!first || got->num * first->den <= first->num * got->den,
                 desc(), " meets another edge before the reported one");
        MC_CHECK(M->at(r, 0) == group[e] && M->at(r, 1) == group[e], desc(),
                 " is reported for group ", M->at(r, 0), "/", M->at(r, 1),
                 " not ", group[e]);
        const REAL l = (REAL)got->num / (REAL)got->den;
        const REAL ix = m.X(p[0]) + l * m.sc * (q[0] - p[0]),
                   iy = m.Y(p[1]) + l * m.sc * (q[1] - p[1]);
        MC_CHECK(std::abs(X->at(r, 0) - ix) < 1e-9 &&
                     std::abs(X->at(r, 1) - iy) < 1e-9,
                 desc(), " intersects at ", X->at(r, 0), ",", X->at(r, 1),
                 " not ", ix, ",", iy);
        const Pt &a = m.vert[m.edge[e].a], &b = m.vert[m.edge[e].b];
        const REAL ex = b[0] - a[0], ey = b[1] - a[1];
        const REAL n0 = X->at(r, 2), n1 = X->at(r, 3);
        MC_CHECK(std::abs(n0 * n0 + n1 * n1 - 1.0) < 1e-12, desc(),
                 " normal is not a unit vector");
        MC_CHECK(std::abs(n0 * ex + n1 * ey) < 1e-11, desc(),
                 " normal is not perpendicular to the edge");
        MC_CHECK(F->at(r, 0) == 1 && Y->at(r, 0) == n0 && Y->at(r, 1) == n1,
                 desc(), " normal mapper disagrees");
      }
    }
    return n;
  }
};

static void set_positions(ParticleGroupSharedPtr g, const Mesh2D &m,
                          const std::vector<Pt> &at) {
  std::vector<REAL> v;
  for (auto &p : at) {
    v.push_back(m.X(p[0]));
    v.push_back(m.Y(p[1]));
  }
  auto B = std::make_shared<BufferDevice<REAL>>(g->sycl_target, v);
  auto k = B->ptr;
  particle_loop(
      g,
      [=](auto P, auto I) {
        P.at(0) = k[2 * I.at(0)];
        P.at(1) = k[2 * I.at(0) + 1];
      },
      Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
      ->execute();
}

static void cross(int R) {
  petsc();
  Mesh2D m = pick_mesh(R);
  const int how = mc::choose(4, "labels");
  set_labels(m, how);
  std::vector<int> part(m.cell.size(), 0);
  if (R > 1)
    part = pick_part(m, R, false);
  // {every other particle, third position component, own previous position,
  //  two interactions at once}; all combinations in the thorough tier
  static const int VAR[4][4] = {{0, 0, 0, 1}, {1, 0, 1, 0}, {0, 1, 1, 1},
                                {1, 1, 0, 0}};
  int var[4];
  if (mc_tier && R == 1)
    for (int &v : var)
      v = mc::choose(2, "option");
  else {
    const int k = mc::choose(R == 1 ? 4 : 2, "options") + (R == 3 ? 2 : 0);
    std::copy(VAR[k], VAR[k] + 4, var);
  }
  const int gsel = how ? mc::choose(3, "groups") : 1;
  auto groups = pick_groups(gsel);
  DMWorld w(m, part, R == 1 ? mc::choose(3, "subdivision") : gsel % 2);
  w.make_domain();
  const int tsel = mc::choose(2, "tolerance");
  const REAL tol = tsel ? 1e-8 : 0.0;
  const int modulus = 1 + var[0];
  const int pcomp = 2 + var[1];
  // starting points in the domain and moves
  std::vector<Pt> start;
  ll lo[2] = {1 << 20, 1 << 20}, hi[2] = {-(1 << 20), -(1 << 20)};
  for (auto &v : m.vert)
    for (int d = 0; d < 2; d++) {
      lo[d] = std::min(lo[d], v[d]);
      hi[d] = std::max(hi[d], v[d]);
    }
  const ll st = 3;
  for (ll y = lo[1]; y <= hi[1]; y += st)
    for (ll x = lo[0]; x <= hi[0]; x += st) {
      const int k = m.where({x, y});
      if (k == 1 || (k == 2 && m.exact))
        start.push_back({x, y});
    }
  static const ll DX[] = {-21, -7, -2, 0, 1, 4, 11};
  Trajectories t;
  std::vector<Pt> s0;
  for (auto &p : start)
    for (ll dx : DX)
      for (ll dy : DX) {
        s0.push_back(p);
        t.p.push_back(p);
        t.q.push_back({p[0] + dx, p[1] + dy});
      }
  const int N = s0.size();
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), pcomp, true),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), 1),
                    ParticleProp(Sym<INT>("N"), 1),
                    ParticleProp(Sym<INT>("M"), 3),
                    ParticleProp(Sym<INT>("F"), 2),
                    ParticleProp(Sym<REAL>("X"), 4),
                    ParticleProp(Sym<REAL>("Y"), 2)};
  auto g = std::make_shared<ParticleGroup>(w.domain, spec, w.target);
  std::vector<int> mine;
  for (int i = 0; i < N; i++)
    if (i % R == world_rank())
      mine.push_back(i);
  {
    ParticleSet s(mine.size(), spec);
    for (size_t k = 0; k < mine.size(); k++) {
      s[Sym<REAL>("P")][k][0] = m.X(s0[mine[k]][0]);
      s[Sym<REAL>("P")][k][1] = m.Y(s0[mine[k]][1]);
      s[Sym<INT>("CELL_ID")][k][0] = 0;
      s[Sym<INT>("ID")][k][0] = mine[k];
    }
    g->add_particles_local(s);
  }
  g->hybrid_move();
  g->cell_move();
  Checker ck(w, g);
  const bool own_sym = var[2];
  auto b = std::make_shared<PI::BoundaryInteraction2D>(
      w.target, w.mesh, groups, tol,
      own_sym ? std::optional<Sym<REAL>>(Sym<REAL>("MYPREV")) : std::nullopt);
  auto other_groups = pick_groups((gsel + 1) % 3);
  auto b2 = std::make_shared<PI::BoundaryInteraction2D>(
      w.target, w.mesh, other_groups, tol, Sym<REAL>("PREV2"));
  int n = 0;
  auto run = [&](const Trajectories &t, bool two) {
    set_positions(g, m, t.p);
    auto sel = [&]() {
      return particle_sub_group(
          g, [=](auto I) { return I.at(0) % 2 == 0; },
          Access::read(Sym<INT>("ID")));
    };
    if (modulus == 1)
      b->pre_integration(g);
    else
      b->pre_integration(sel());
    if (two)
      b2->pre_integration(g);
    set_positions(g, m, t.q);
    auto r = modulus == 1 ? b->post_integration(g) : b->post_integration(sel());
    if (two) {
      auto r2 = b2->post_integration(g);
      ck.collect(r2, other_groups);
      ck.normals(*b2);
      n += ck.check(t, other_groups, tol, 1);
    }
    ck.collect(r, groups);
    ck.normals(*b);
    n += ck.check(t, groups, tol, modulus);
  };
  run(t, var[3]);
  // a second step: short moves first, then the way back and beyond
  Trajectories u;
  for (int i = 0; i < N; i++) {
    const ll dx = t.q[i][0] - t.p[i][0], dy = t.q[i][1] - t.p[i][1];
    u.p.push_back(t.q[i]);
    u.q.push_back({t.q[i][0] - dx - (dy > 0) * 3, t.q[i][1] - 2 * dy + 1});
  }
  run(u, false);
  mc::outcome(n);
  if (n)
    mc::nontrivial();
  b->free();
  b2->free();
  g->free();
}

// Labels set on the distributed mesh.
static void labels(int R) {
  petsc();
  Mesh2D m = pick_mesh(R);
  std::vector<int> part(m.cell.size(), 0);
  if (R > 1)
    part = pick_part(m, R, R < 3);
  const int how = mc::choose(3, "labelled");
  // a label inside is there already (PETSc's labels may have several values
  // for one point, so none is given to an edge twice)
  const int before = how ? 0 : mc::choose(2, "label exists");
  set_labels(m, before ? 3 : 0);
  for (auto &e : m.edge)
    if (e.ncell == 1)
      e.label = 0;
  auto old = m.edge;
  DMWorld w(m, part);
  const int rank = world_rank();
  const char *name = "Face Sets";
  const int NE = m.edge.size();
  std::vector<int> want(NE);
  for (int i = 0; i < NE; i++)
    want[i] = old[i].label;
  auto dmh = w.mesh->dmh;
  if (how == 0) {
    PI::label_all_dmplex_boundaries(w.dm, name, 5);
    for (int i = 0; i < NE; i++)
      if (m.edge[i].ncell == 1)
        want[i] = 5;
  } else {
    // global numbers of the vertices
    const int NV = m.vert.size();
    std::vector<int> num(NV, -1), nums(NV);
    PetscInt a, b;
    PC(DMPlexGetDepthStratum(w.dm, 0, &a, &b));
    IS is;
    PC(DMPlexGetVertexNumbering(w.dm, &is));
    const PetscInt *p;
    PC(ISGetIndices(is, &p));
    std::vector<std::vector<REAL>> V;
    for (PetscInt v = a; v < b; v++) {
      dmh->get_generic_vertices(v, V);
      auto q = int_points(m, V).at(0);
      for (int i = 0; i < NV; i++)
        if (m.vert[i] == q)
          num[i] = p[v - a] < 0 ? -1 - p[v - a] : p[v - a];
    }
    PC(ISRestoreIndices(is, &p));
    MPI_Allreduce(num.data(), nums.data(), NV, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    std::vector<PetscInt> vs, ve, vl;
    const int who = R > 1 ? mc::choose(3, "edges given by") : 0;
    const int turn = mc::choose(2, "direction");
    for (int i = 0; i < NE; i++) {
      if (how == 1 && i % 3 == 1)
        continue;
      want[i] = how == 1 ? 10 + i : 4;
      const int giver = who == 0 ? 0 : who == 1 ? i % R : R - 1;
      if (giver != rank)
        continue;
      vs.push_back(nums[turn ? m.edge[i].b : m.edge[i].a]);
      ve.push_back(nums[turn ? m.edge[i].a : m.edge[i].b]);
      vl.push_back(want[i]);
    }
    PI::label_dmplex_edges(w.dm, name, vs, ve, vl);
  }
  PetscInt a, b;
  dmh->get_boundary_stratum(&a, &b);
  std::map<std::vector<Pt>, int> id;
  for (int i = 0; i < NE; i++) {
    std::vector<Pt> k = {m.vert[m.edge[i].a], m.vert[m.edge[i].b]};
    std::sort(k.begin(), k.end());
    id[k] = i;
  }
  std::vector<std::vector<REAL>> V;
  int n = 0;
  std::set<PetscInt> seen;
  for (auto &x : dmh->get_face_sets())
    for (auto p : x.second) {
      dmh->get_generic_vertices(p, V);
      auto k = int_points(m, V);
      std::sort(k.begin(), k.end());
      MC_CHECK(id.count(k) && seen.insert(p).second, "face set");
      const int i = id.at(k);
      const auto &e = m.edge[i];
      MC_CHECK(x.first == (want[i] ? want[i] : -1), "edge (", m.vert[e.a][0],
               ",", m.vert[e.a][1], ")-(", m.vert[e.b][0], ",", m.vert[e.b][1],
               ") has label ", x.first, " not ", want[i]);
      n++;
    }
  MC_CHECK(n == b - a, "edges missing from the face sets");
  PetscBool has;
  PI::ensure_dm_label_exists(w.dm, "another");
  PC(DMHasLabel(w.dm, "another", &has));
  MC_CHECK(has, "label was not created");
  mc::outcome(n);
  mc::nontrivial();
}
static void cross1() { cross(1); }
static void cross2() { cross(2); }
static void cross3() { cross(3); }
static void labels1() { labels(1); }
static void labels2() { labels(2); }
static void labels3() { labels(3); }

const mc_scenario mc_scenarios[] = {
    {"cross@1", cross1},   {"cross@2", cross2},   {"cross@3", cross3},
    {"labels@1", labels1}, {"labels@2", labels2}, {"labels@3", labels3}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
