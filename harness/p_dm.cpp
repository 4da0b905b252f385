// MC-VARIANT: p
// Particles on unstructured (PETSc DMPlex) meshes: mapping to cells and ranks,
// halo cells, geometry and numbering of the mesh wrapper.
#include "petsc.hpp"
using namespace H;

// 2 x 2 quads, whole or cut. On several ranks the quick tier takes a few
// patterns instead of every combination.
static Mesh2D pick_mesh(int R, int level = 0) {
  std::vector<int> split;
  const bool few = R > 1 && !mc_tier;
  int mv = 0, co = 0;
  if (few) {
    static const int PAT[4][4] = {
        {0, 0, 0, 0}, {1, 0, 0, 2}, {1, 2, 2, 1}, {0, 2, 1, 0}};
    const int k = R == 3 ? 1 + mc::choose(2, "cells") : mc::choose(4, "cells");
    split.assign(PAT[k], PAT[k] + 4);
    static const int VAR[4][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 0}};
    const int v = mc::choose(R == 3 || level ? 2 : 4, "geometry");
    mv = VAR[v][0];
    co = VAR[v][1];
  } else {
    for (int q = 0; q < 4; q++)
      split.push_back(mc::choose(3, "split"));
    mv = mc::choose(mc_tier ? 4 : 3, "moved vertex");
    co = mc::choose(3, "coordinates");
  }
  auto m = grid_mesh(2, 2, split);
  // move the inner vertex
  static const ll MV[4][2] = {{0, 0}, {2, 1}, {-1, 2}, {0, -2}};
  m.vert[4] = {m.vert[4][0] + MV[mv][0], m.vert[4][1] + MV[mv][1]};
  transform(m, co);
  compact(m);
  m.find_edges();
  return m;
}
// points of the lattice of step `st` in the closed domain
static std::vector<Pt> pick_points(const Mesh2D &m, ll st) {
  ll lo[2] = {1 << 20, 1 << 20}, hi[2] = {-(1 << 20), -(1 << 20)};
  for (auto &v : m.vert)
    for (int d = 0; d < 2; d++) {
      lo[d] = std::min(lo[d], v[d]);
      hi[d] = std::max(hi[d], v[d]);
    }
  std::vector<Pt> r;
  for (ll y = lo[1]; y <= hi[1]; y += st)
    for (ll x = lo[0]; x <= hi[0]; x += st) {
      const int w = m.where({x, y});
      if (w == 1 || (w == 2 && m.exact))
        r.push_back({x, y});
    }
  return r;
}

static void check_placed(DMWorld &w, ParticleGroupSharedPtr g,
                         const std::vector<Pt> &pts, const std::vector<int> &at) {
  const Mesh2D &m = w.m;
  const int N = at.size();
  std::vector<int> seen(N, 0), all(N);
  const int nc = w.mesh->get_cell_count();
  for (int c = 0; c < nc; c++) {
    auto id = g->get_cell(Sym<INT>("ID"), c);
    auto p = g->get_cell(Sym<REAL>("P"), c);
    auto ci = g->get_cell(Sym<INT>("CELL_ID"), c);
    auto poly = m.poly(w.cell.at(c));
    for (int r = 0; r < id->nrow; r++) {
      const INT i = id->at(r, 0);
      MC_CHECK(i >= 0 && i < N, "unknown particle ", i);
      seen[i]++;
      const Pt &q = pts[at[i]];
      MC_CHECK(p->at(r, 0) == m.X(q[0]) && p->at(r, 1) == m.Y(q[1]),
               "particle ", i, " changed its position");
      MC_CHECK(ci->at(r, 0) == c, "CELL_ID ", ci->at(r, 0), " in cell ", c);
      MC_CHECK(in_polygon(poly, q), "particle ", i, " at (", q[0], ",", q[1],
               ") is in cell ", w.cell[c], " which does not contain it");
    }
  }
  MPI_Allreduce(seen.data(), all.data(), N, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  for (int i = 0; i < N; i++)
    MC_CHECK(all[i] == 1, "particle ", i, " exists ", all[i], " times");
}

static void map_points(int R) {
  petsc();
  Mesh2D m = pick_mesh(R);
  auto part = pick_part(m, R, R < 3);
  const auto pts = pick_points(m, R == 1 ? 1 : 2);
  const int N = pts.size();
  DMWorld w(m, part, R > 1 ? mc::choose(2, "subdivision") : 0);
  w.make_domain();
  const int rank = world_rank();
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), 1)};
  auto g = std::make_shared<ParticleGroup>(w.domain, spec, w.target);
  std::vector<int> mine, at(N);
  const int adder = R > 1 ? mc::choose(2, "added by") : 0;
  for (int i = 0; i < N; i++) {
    at[i] = i;
    if ((adder ? i % R : 0) == rank)
      mine.push_back(i);
  }
  {
    ParticleSet s(mine.size(), spec);
    for (size_t k = 0; k < mine.size(); k++) {
      s[Sym<REAL>("P")][k][0] = m.X(pts[mine[k]][0]);
      s[Sym<REAL>("P")][k][1] = m.Y(pts[mine[k]][1]);
      s[Sym<INT>("CELL_ID")][k][0] = 0;
      s[Sym<INT>("ID")][k][0] = mine[k];
    }
    g->add_particles_local(s);
  }
  g->hybrid_move();
  g->cell_move();
  check_placed(w, g, pts, at);
  // every particle jumps to another point
  const int step = std::max(1, N / 3);
  auto X = std::make_shared<BufferDevice<REAL>>(w.target, [&] {
    std::vector<REAL> v;
    for (int i = 0; i < N; i++) {
      at[i] = (i + step) % N;
      v.push_back(m.X(pts[at[i]][0]));
      v.push_back(m.Y(pts[at[i]][1]));
    }
    return v;
  }());
  auto kx = X->ptr;
  particle_loop(
      g,
      [=](auto P, auto I) {
        P.at(0) = kx[2 * I.at(0)];
        P.at(1) = kx[2 * I.at(0) + 1];
      },
      Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
      ->execute();
  g->hybrid_move();
  g->cell_move();
  check_placed(w, g, pts, at);
  mc::outcome(N);
  mc::nontrivial();
  g->free();
}
// The same polygon, starting anywhere and in either direction.
static bool same_cycle(const std::vector<Pt> &a, const std::vector<Pt> &b) {
  const int n = a.size();
  if ((int)b.size() != n)
    return false;
  for (int s = 0; s < n; s++) {
    bool f = true, r = true;
    for (int i = 0; i < n; i++) {
      f = f && a[i] == b[(s + i) % n];
      r = r && a[i] == b[(s - i + n) % n];
    }
    if (f || r)
      return true;
  }
  return false;
}
static void wrapper(DMWorld &w, const std::vector<int> &part, int labelled) {
  const Mesh2D &m = w.m;
  auto dmh = w.mesh->dmh;
  const int nc = w.mesh->get_cell_count(), NC = m.cell.size(),
            rank = world_rank();
  MC_CHECK(dmh->get_cell_count() == nc, "cell counts differ");
  MC_CHECK(dmh->get_global_cell_count() == NC, "global cell count ",
           dmh->get_global_cell_count(), " of ", NC);
  ll lo[2] = {1 << 20, 1 << 20}, hi[2] = {-(1 << 20), -(1 << 20)};
  ll total = 0;
  for (int c = 0; c < NC; c++)
    total += area2(m.poly(c));
  const REAL unit = 0.5 * m.sc * m.sc;
  MC_CHECK(near(dmh->get_volume(), unit * total, unit * total), "volume ",
           dmh->get_volume(), " of the mesh, not ", unit * total);
  std::vector<int> lid(NC, -1), lids(NC), gid(NC, -1), gids(NC);
  std::vector<std::vector<REAL>> V;
  for (int c = 0; c < nc; c++) {
    const auto pi = dmh->get_dmplex_cell_index(c);
    MC_CHECK(dmh->get_local_cell_index(pi) == c, "cell index not inverted");
    const auto poly = m.poly(w.cell[c]);
    dmh->get_cell_vertices(c, V);
    MC_CHECK(same_cycle(int_points(m, V), poly),
             "vertices of the cell are not in order");
    dmh->get_generic_vertices(pi, V);
    MC_CHECK(same_cycle(int_points(m, V), poly), "generic vertices of cell");
    auto bb = dmh->get_cell_bounding_box(c);
    for (int d = 0; d < 2; d++) {
      ll l = 1 << 20, h = -(1 << 20), s = 0;
      for (auto &p : poly) {
        l = std::min(l, p[d]);
        h = std::max(h, p[d]);
        s += p[d];
      }
      lo[d] = std::min(lo[d], l);
      hi[d] = std::max(hi[d], h);
      auto C = [&](ll x) { return d ? m.Y(x) : m.X(x); };
      MC_CHECK(bb->lower(d) == C(l) && bb->upper(d) == C(h),
               "bounding box of cell ", w.cell[c]);
      std::vector<REAL> av(2);
      dmh->get_cell_vertex_average(c, av);
      const REAL want = (d ? m.oy : m.ox) + m.sc * s / poly.size();
      MC_CHECK(near(av[d], want, 100.0), "vertex average ", av[d], " not ", want);
    }
    const REAL vol = dmh->get_cell_volume(c), wv = unit * area2(poly);
    MC_CHECK(near(vol, wv, wv + 1), "volume ", vol, " of cell, not ", wv);
    lid[w.cell[c]] = c;
    gid[w.cell[c]] = dmh->get_point_global_index(pi);
  }
  // which cell contains a point; PETSc's own point location does not handle
  // meshes of triangles and quads together
  bool mixed = false;
  for (auto &c : m.cell)
    mixed = mixed || c.size() != m.cell[0].size();
  {
    auto bb = dmh->get_bounding_box();
    for (int d = 0; d < 2; d++) {
      auto C = [&](ll x) { return d ? m.Y(x) : m.X(x); };
      MC_CHECK(bb->lower(d) == C(lo[d]) && bb->upper(d) == C(hi[d]),
               "bounding box of the local cells: [", bb->lower(d), ",",
               bb->upper(d), "] not [", C(lo[d]), ",", C(hi[d]), "]");
    }
    double p[3] = {0, 0, 0};
    w.mesh->get_point_in_subdomain(p);
    std::vector<PetscScalar> q = {p[0], p[1]};
    MC_CHECK(mixed || dmh->contains_point(q) >= 0, "point in subdomain is not in it");
  }
  // (PETSc's is collective: every rank asks about the same points)
  for (auto &v : m.vert)
    for (int d = 0; d < 2; d++) {
      lo[d] = std::min(lo[d], v[d]);
      hi[d] = std::max(hi[d], v[d]);
    }
  for (ll y = lo[1] - 1; y <= hi[1] + 1; y++)
    for (ll x = lo[0] - 1; x <= hi[0] + 1; x++) {
      bool onedge = false;
      for (int c = 0; c < NC; c++)
        onedge = onedge || in_polygon(m.poly(c), {x, y}) == 2;
      std::vector<PetscScalar> q = {m.X(x), m.Y(y)};
      int in = -1;
      for (int c = 0; c < nc; c++) {
        const int k = in_polygon(m.poly(w.cell[c]), {x, y});
        if (k == 1)
          in = c;
        if (k != 2 || m.exact)
          MC_CHECK(dmh->cell_contains_point(c, q) == (k != 0), "point (", x,
                   ",", y, ") cell ", w.cell[c], ": contained ", k);
      }
      if (!onedge && !mixed && (x + y) % 3 == 0) {
        const int f = dmh->contains_point(q);
        MC_CHECK((f < 0) == (in < 0) && (in < 0 || f == in), "point (", x, ",",
                 y, ") located in cell ", f, " not ", in);
      }
    }
  // global numbering of the points
  {
    PetscInt a, b;
    PC(DMPlexGetChart(w.dm, &a, &b));
    const int NP = NC + m.vert.size() + m.edge.size();
    std::vector<ll> key(NP, -1), kmax(NP), kmin(NP);
    std::vector<int> own(NP, 0), owns(NP);
    for (PetscInt p = a; p < b; p++) {
      const auto s = dmh->get_point_global_index(p, true),
                 g = dmh->get_point_global_index(p);
      MC_CHECK(g >= 0 && g < NP, "global index ", g);
      MC_CHECK(s == g || s == -g - 1, "signed global index ", s, " of ", g);
      MC_CHECK(dmh->signed_global_id_to_global_id(s) == g, "signed index");
      MC_CHECK(dmh->get_local_point_from_global_point(g) == p,
               "global index not inverted");
      MC_CHECK(dmh->get_local_point_from_global_point(s) == p,
               "signed global index not inverted");
      own[g] += s >= 0;
      dmh->get_generic_vertices(p, V);
      auto q = int_points(m, V);
      ll k = q.size();
      std::sort(q.begin(), q.end());
      for (auto &x : q)
        k = ((k * 131 + x[0] + 50) * 131 + x[1] + 50) & 0x3fffffffffffffll;
      key[g] = k;
    }
    MPI_Allreduce(own.data(), owns.data(), NP, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    MPI_Allreduce(key.data(), kmax.data(), NP, MPI_LONG_LONG, MPI_MAX,
                  MPI_COMM_WORLD);
    std::set<ll> u(kmax.begin(), kmax.end());
    MC_CHECK((int)u.size() == NP, "global indices name ", u.size(),
             " points of ", NP);
    for (int g = 0; g < NP; g++) {
      MC_CHECK(owns[g] == 1, "point ", g, " is owned ", owns[g], " times");
      MC_CHECK(key[g] == -1 || key[g] == kmax[g],
               "ranks disagree about point ", g);
    }
  }
  MPI_Allreduce(lid.data(), lids.data(), NC, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  MPI_Allreduce(gid.data(), gids.data(), NC, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  {
    auto own = PI::get_map_from_global_cell_points_to_ranks(w.dm);
    MC_CHECK((int)own.second.size() == NC, "owner map size");
    for (int c = 0; c < NC; c++)
      MC_CHECK(own.second.at(gids[c] - own.first) == part[c], "owner of cell ",
               c, " is ", own.second.at(gids[c] - own.first), " not ", part[c]);
  }
  // face sets
  {
    PetscInt a, b;
    dmh->get_boundary_stratum(&a, &b);
    std::map<std::vector<Pt>, int> want;
    for (auto &e : m.edge) {
      std::vector<Pt> k = {m.vert[e.a], m.vert[e.b]};
      std::sort(k.begin(), k.end());
      want[k] = e.label ? e.label : -1;
    }
    std::set<PetscInt> all;
    for (auto &x : dmh->get_face_sets())
      for (auto p : x.second) {
        MC_CHECK(p >= a && p < b && all.insert(p).second, "point ", p,
                 " in the face sets");
        dmh->get_generic_vertices(p, V);
        auto k = int_points(m, V);
        std::sort(k.begin(), k.end());
        MC_CHECK(want.count(k) && want[k] == x.first, "face set ", x.first,
                 " contains an edge of face set ", want[k]);
      }
    MC_CHECK((PetscInt)all.size() == b - a, "edges missing from the face sets");
  }
  // data for plotting and on the device
  {
    auto vtk = dmh->get_vtk_cell_data();
    auto cdc = PI::get_cell_vertices_cdc(w.target, dmh);
    MC_CHECK((int)vtk.size() == nc, "VTK cells");
    for (int c = 0; c < nc; c++) {
      const auto poly = m.poly(w.cell[c]);
      const int n = poly.size();
      MC_CHECK(vtk[c].num_points == n && (int)vtk[c].points.size() == 3 * n &&
                   vtk[c].cell_type ==
                       (n == 3 ? VTK::CellType::triangle
                               : VTK::CellType::quadrilateral),
               "VTK cell type");
      MC_CHECK(std::get<0>(cdc)->get_value(c, 0, 0) == n, "number of vertices");
      std::vector<std::vector<REAL>> a, b;
      for (int v = 0; v < n; v++) {
        a.push_back({vtk[c].points[3 * v], vtk[c].points[3 * v + 1]});
        b.push_back({std::get<1>(cdc)->get_value(c, v, 0),
                     std::get<1>(cdc)->get_value(c, v, 1)});
        MC_CHECK(vtk[c].points[3 * v + 2] == 0.0, "VTK cell has a height");
      }
      MC_CHECK(same_cycle(int_points(m, a), poly), "VTK cell");
      MC_CHECK(same_cycle(int_points(m, b), poly), "cell vertices on device");
    }
  }
  // cells as they are sent to other ranks
  for (int c = 0; c < nc; c++) {
    auto cs = dmh->get_copyable_cell(c);
    MC_CHECK(cs.cell_local_id == c && cs.cell_global_id == gids[w.cell[c]] &&
                 cs.owning_rank == rank,
             "description of cell ", w.cell[c]);
    std::vector<std::byte> buf(cs.get_num_bytes() + 1, std::byte(7));
    cs.serialise(buf.data(), cs.get_num_bytes());
    MC_CHECK(buf.back() == std::byte(7), "serialise overruns its buffer");
    PI::DMPlexCellSerialise cd;
    cd.deserialise(buf.data(), cs.get_num_bytes());
    MC_CHECK(cd.cell_local_id == cs.cell_local_id &&
                 cd.cell_global_id == cs.cell_global_id &&
                 cd.owning_rank == cs.owning_rank &&
                 cd.cell_type == cs.cell_type &&
                 cd.cell_representation == cs.cell_representation,
             "cell changed by serialise and deserialise");
    PI::CellSTDRepresentation r;
    r.deserialise(cd.cell_representation);
    const auto poly = m.poly(w.cell[c]);
    const size_t n = poly.size();
    MC_CHECK(r.point_cones.size() == 2 * n + 1 && r.vertices.size() == n &&
                 r.point_cone_orientations.size() == 2 * n + 1,
             "points of a sent cell");
    MC_CHECK(r.get_depth() == 2 && r.get_point_depth(cs.cell_global_id) == 2,
             "depth of a sent cell");
    std::set<Pt> a(poly.begin(), poly.end()), b;
    for (auto &v : r.vertices)
      b.insert({m.IX(v.second.at(0)), m.IY(v.second.at(1))});
    MC_CHECK(a == b, "vertices of a sent cell");
    const auto &cone = r.point_cones.at(cs.cell_global_id);
    MC_CHECK(cone.size() == n, "edges of a sent cell");
    for (auto e : cone) {
      const auto &ec = r.point_cones.at(e);
      MC_CHECK(ec.size() == 2, "ends of an edge");
      const auto pa = dmh->get_local_point_from_global_point(e);
      dmh->get_generic_vertices(pa, V);
      auto q = int_points(m, V);
      for (int k = 0; k < 2; k++) {
        auto &v = r.vertices.at(ec[k]);
        MC_CHECK((q[0] == Pt{m.IX(v[0]), m.IY(v[1])}) ||
                     (q[1] == Pt{m.IX(v[0]), m.IY(v[1])}),
                 "ends of an edge of a sent cell");
      }
    }
  }
  // halo
  MC_CHECK(w.mesh->validate_halos(false), "validate_halos");
  std::set<int> nb;
  if (auto hh = w.mesh->dmh_halo) {
    std::set<int> seen;
    for (int h = 0; h < hh->get_cell_count(); h++) {
      hh->get_cell_vertices(h, V);
      const auto q = int_points(m, V);
      const auto &o = w.mesh->map_local_lid_remote_lid.at(
          hh->get_dmplex_cell_index(h));
      int at = -1;
      for (int c = 0; c < NC; c++)
        if (gids[c] == std::get<2>(o))
          at = c;
      MC_CHECK(at >= 0 && seen.insert(at).second, "halo cell ", h,
               " is cell ", at, " again");
      MC_CHECK(same_cycle(q, m.poly(at)), "geometry of halo cell");
      MC_CHECK(std::get<0>(o) == part[at] && std::get<1>(o) == lids[at],
               "halo cell is cell ", std::get<1>(o), " of rank ",
               std::get<0>(o), " not cell ", lids[at], " of rank ", part[at]);
      MC_CHECK(part[at] != rank, "own cell in the halo");
      nb.insert(part[at]);
    }
  }
  std::vector<int> n1(nb.begin(), nb.end()),
      n2 = w.mesh->get_local_communication_neighbours();
  std::sort(n2.begin(), n2.end());
  MC_CHECK(n1 == n2, "neighbouring ranks");
}

static void mesh_case(int R) {
  petsc();
  Mesh2D m = pick_mesh(R);
  auto part = pick_part(m, R);
  const int lab = R > 1 && !mc_tier ? 2 * mc::choose(2, "labels")
                                    : mc::choose(3, "labels");
  int k = 0;
  for (auto &e : m.edge)
    if (lab && (lab == 2 || e.ncell == 1))
      e.label = 1 + k++ % 3;
  const bool mapped = mc::choose(2, "after the mapper");
  DMWorld w(m, part, R == 1 ? 0 : mc_tier ? mc::choose(2, "subdivision") : mapped);
  if (mapped)
    w.make_domain();
  wrapper(w, part, lab);
  mc::outcome(m.cell.size());
  mc::nontrivial();
}

// Random positions.
static void sampling(int R) {
  petsc();
  Mesh2D m = pick_mesh(R, 1);
  auto part = pick_part(m, R, false);
  DMWorld w(m, part);
  w.make_domain();
  const int nc = w.mesh->get_cell_count();
  std::mt19937 rng(mc::choose(mc_tier ? 8 : 2, "seed") * 7 + world_rank());
  std::vector<std::vector<double>> pos;
  std::vector<int> cells, want(nc);
  const int mode = mc::choose(3, "mode"), amount = mc::choose(3, "amount");
  const REAL unit = 0.5 * m.sc * m.sc;
  auto N = [&](REAL x) {
    const REAL f = x - std::floor(x);
    if (std::abs(f - 0.5) < 1e-6)
      mc_discard(); // either is a valid rounding
    return (int)std::round(x);
  };
  if (mode == 0) {
    for (auto &x : want)
      x = amount * 2;
    PI::uniform_within_dmplex_cells(w.mesh, 2 * amount, pos, cells, &rng);
  } else if (mode == 1) {
    const REAL dens = (0.013 + 0.03 * amount) / unit;
    for (int c = 0; c < nc; c++)
      want[c] = N(dens * unit * area2(m.poly(w.cell[c])));
    PI::uniform_density_within_dmplex_cells(w.mesh, dens, pos, cells, &rng);
  } else {
    const REAL x0 = m.X(0), y0 = m.Y(0), sc = m.sc;
    auto f = [=](REAL x, REAL y) {
      return 1.0 + 0.31 * (x - x0) / sc - 0.6 * amount * (y - y0) / sc;
    };
    const REAL wt = unit * 53;
    int total = 0, lo = 1 << 30, hi = 0;
    for (int c = 0; c < nc; c++) {
      auto poly = m.poly(w.cell[c]);
      REAL a = 0;
      for (auto &p : poly)
        a += f(m.X(p[0]), m.Y(p[1])) / poly.size();
      want[c] = N(std::max(0.0, a * unit * area2(poly)) / wt);
      total += want[c];
      lo = std::min(lo, want[c]);
      hi = std::max(hi, want[c]);
    }
    auto r = PI::sample_points_for_distribution<2>(w.target, w.domain, wt, f,
                                                   pos, cells, &rng);
    MC_CHECK(r[0] == lo && r[1] == hi && r[2] == total, "reported numbers ",
             r[0], " ", r[1], " ", r[2], " not ", lo, " ", hi, " ", total);
  }
  MC_CHECK(pos.size() == 2 && pos[0].size() == cells.size() &&
               pos[1].size() == cells.size(),
           "sizes of the output");
  std::vector<int> got(nc, 0);
  for (size_t i = 0; i < cells.size(); i++) {
    const int c = cells[i];
    MC_CHECK(c >= 0 && c < nc, "cell ", c);
    got[c]++;
    // orientation-free test with a margin for rounding
    auto poly = m.poly(w.cell[c]);
    const REAL x = (pos[0][i] - m.ox) / m.sc, y = (pos[1][i] - m.oy) / m.sc;
    int s = 0;
    const int n = poly.size();
    for (int k = 0; k < n; k++) {
      auto &a = poly[k], &b = poly[(k + 1) % n];
      const REAL d = (b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]);
      if (std::abs(d) < 1e-6)
        continue;
      MC_CHECK(s == 0 || (s > 0) == (d > 0), "position (", x, ",", y,
               ") outside of its cell");
      s = d > 0 ? 1 : -1;
    }
  }
  for (int c = 0; c < nc; c++)
    MC_CHECK(got[c] == want[c], got[c], " positions in cell ", w.cell[c],
             " not ", want[c]);
  if (nc > 0 && mode == 0 && amount) {
    // refill one cell at an offset, everything else stays
    const int c = mc::choose(std::min(nc, 2), "cell"), off = amount;
    auto p0 = pos;
    auto c0 = cells;
    const int e =
        PI::uniform_within_dmplex_cell(w.mesh, c, 1, off, pos, cells, &rng);
    MC_CHECK(e == off + 1, "returned offset ", e);
    for (size_t i = 0; i < cells.size(); i++)
      if ((int)i != off)
        MC_CHECK(pos[0][i] == p0[0][i] && pos[1][i] == p0[1][i] &&
                     cells[i] == c0[i],
                 "entry ", i, " overwritten");
    MC_CHECK(cells[off] == c, "cell of the new position");
    std::vector<PetscScalar> q = {pos[0][off], pos[1][off]};
    MC_CHECK(w.mesh->dmh->cell_contains_point(c, q), "new position");
    // succeeding at the last permitted attempt is a success
    const auto poly = m.poly(w.cell[c]);
    if (m.exact && poly.size() == 4 && area2(poly) == 2 * Q * Q)
      PI::uniform_within_dmplex_cell(w.mesh, c, 1, off, pos, cells, &rng, 1);
  }
  mc::outcome(cells.size());
  mc::nontrivial();
}
// Three dimensions: boxes of hexahedra or tetrahedra.
static void cube(int R) {
  petsc();
  const int rank = world_rank();
  const bool simplex = mc::choose(2, "tetrahedra");
  const int shape = mc::choose(mc_tier ? 4 : 3, "shape");
  static const int SH[4][3] = {{2, 1, 1}, {2, 2, 1}, {1, 1, 3}, {3, 2, 2}};
  const PetscInt f[3] = {SH[shape][0], SH[shape][1], SH[shape][2]};
  const double o = mc::choose(2, "origin") ? -3.5 : 0.0, h = 0.5;
  const PetscReal lo[3] = {o, o, o},
                  up[3] = {o + h * f[0], o + h * f[1], o + h * f[2]};
  DM dm;
  if (simplex) {
    // six tetrahedra per box, one for each order of the axes
    std::vector<PetscInt> cells;
    std::vector<PetscReal> co;
    auto V = [&](int x, int y, int z) {
      return (z * (f[1] + 1) + y) * (f[0] + 1) + x;
    };
    for (int z = 0; z <= f[2]; z++)
      for (int y = 0; y <= f[1]; y++)
        for (int x = 0; x <= f[0]; x++)
          for (int q : {x, y, z})
            co.push_back(o + h * q);
    for (int z = 0; z < f[2]; z++)
      for (int y = 0; y < f[1]; y++)
        for (int x = 0; x < f[0]; x++) {
          int ax[3] = {0, 1, 2};
          do {
            int p[3] = {x, y, z};
            int t[4] = {V(x, y, z), 0, 0, 0};
            for (int k = 0; k < 3; k++) {
              p[ax[k]]++;
              t[k + 1] = V(p[0], p[1], p[2]);
            }
            const bool even = (ax[0] == 0 && ax[1] == 1) ||
                              (ax[0] == 1 && ax[1] == 2) ||
                              (ax[0] == 2 && ax[1] == 0);
            if (even)
              std::swap(t[0], t[1]);
            for (int v : t)
              cells.push_back(v);
          } while (std::next_permutation(ax, ax + 3));
        }
    PC(DMPlexCreateFromCellListPetsc(
        PETSC_COMM_WORLD, 3, rank ? 0 : cells.size() / 4,
        rank ? 0 : co.size() / 3, 4, PETSC_TRUE, cells.data(), 3, co.data(),
        &dm));
  } else
    PC(DMPlexCreateBoxMesh(PETSC_COMM_WORLD, 3, PETSC_FALSE, f, lo, up, nullptr,
                           PETSC_TRUE, &dm));
  const int nhex = f[0] * f[1] * f[2];
  if (R > 1) {
    PetscInt a, b;
    PC(DMPlexGetHeightStratum(dm, 0, &a, &b));
    int total, mine = b - a;
    MPI_Allreduce(&mine, &total, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    if (total < R)
      mc_discard();
    std::vector<int> pick;
    if (total <= 4)
      for (int c = 0; c < total; c++)
        pick.push_back(mc::choose(R, "rank of cell"));
    const int way = total <= 4 ? 4 : mc::choose(3, "partition");
    for (int r = 0; r < R && way == 4; r++)
      if (!std::count(pick.begin(), pick.end(), r))
        mc_discard();
    // everything starts on rank 0 when the mesh is created
    if (rank == 0 && mine != total)
      mc::fail("harness: box mesh is already distributed");
    std::vector<PetscInt> sizes(R, 0), pts;
    if (rank == 0)
      for (int r = 0; r < R; r++)
        for (int c = 0; c < total; c++) {
          const int want = way == 0   ? c * R / total
                           : way == 1 ? c % R
                           : way == 2 ? (c == total - 1 ? R - 1 : c % (R - 1))
                                      : pick[c];
          if (want == r) {
            sizes[r]++;
            pts.push_back(c);
          }
        }
    PetscPartitioner pp;
    PC(DMPlexGetPartitioner(dm, &pp));
    PC(PetscPartitionerSetType(pp, PETSCPARTITIONERSHELL));
    PC(PetscPartitionerShellSetPartition(pp, R, sizes.data(), pts.data()));
    DM dd = nullptr;
    PC(DMPlexDistribute(dm, 0, nullptr, &dd));
    if (!dd)
      mc::fail("harness: not distributed");
    PC(DMDestroy(&dm));
    dm = dd;
  }
  {
    auto mesh = std::make_shared<DMPlexInterface>(dm, 0, MPI_COMM_WORLD);
    auto target = std::make_shared<SYCLTarget>(0, mesh->get_comm());
    auto mapper = std::make_shared<PI::DMPlexLocalMapper>(target, mesh);
    auto domain = std::make_shared<Domain>(mesh, mapper);
    auto dmh = mesh->dmh;
    const int nc = mesh->get_cell_count();
    // every hexahedron is covered exactly
    REAL vol = 0.0, all;
    for (int c = 0; c < nc; c++)
      vol += dmh->get_cell_volume(c);
    MPI_Allreduce(&vol, &all, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    MC_CHECK(near(all, nhex * h * h * h, 10) && near(dmh->get_volume(), all, 10),
             "volume ", all);
    // lattice: interior and faces between cells, not the outer boundary
    std::vector<std::array<int, 3>> pts;
    const int L = 4;
    for (int z = 1; z < L * f[2]; z++)
      for (int y = 1; y < L * f[1]; y++)
        for (int x = 1; x < L * f[0]; x++)
          if ((x + y + z) % 2)
            pts.push_back({x, y, z});
    const int N = pts.size();
    auto X = [=](int i) { return o + h * i / L; };
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 3, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1)};
    auto g = std::make_shared<ParticleGroup>(domain, spec, target);
    const int adder = R > 1 ? mc::choose(2, "added by") : 0;
    std::vector<int> mine;
    for (int i = 0; i < N; i++)
      if ((adder ? i % R : 0) == rank)
        mine.push_back(i);
    ParticleSet s(mine.size(), spec);
    for (size_t k = 0; k < mine.size(); k++) {
      for (int d = 0; d < 3; d++)
        s[Sym<REAL>("P")][k][d] = X(pts[mine[k]][d]);
      s[Sym<INT>("CELL_ID")][k][0] = 0;
      s[Sym<INT>("ID")][k][0] = mine[k];
    }
    g->add_particles_local(s);
    int step = 0;
    auto check = [&] {
      std::vector<int> seen(N, 0), sum(N);
      for (int c = 0; c < nc; c++) {
        std::vector<std::vector<REAL>> v;
        dmh->get_cell_vertices(c, v);
        MC_CHECK((int)v.size() == (simplex ? 4 : 8), "vertices of a cell");
        auto id = g->get_cell(Sym<INT>("ID"), c);
        auto p = g->get_cell(Sym<REAL>("P"), c);
        for (int r = 0; r < id->nrow; r++) {
          const int i = id->at(r, 0);
          MC_CHECK(i >= 0 && i < N, "unknown particle");
          seen[i]++;
          bool in = true;
          for (int d = 0; d < 3; d++) {
            MC_CHECK(p->at(r, d) == X(pts[(i + step) % N][d]),
                     "particle ", i, " changed its position");
            REAL a = 1e9, b = -1e9;
            for (auto &x : v) {
              a = std::min(a, x[d]);
              b = std::max(b, x[d]);
            }
            in = in && p->at(r, d) >= a && p->at(r, d) <= b;
          }
          if (simplex) { // signs of the four sub tetrahedra
            auto det = [&](int k) {
              REAL q[4][3];
              for (int j = 0; j < 4; j++)
                for (int d = 0; d < 3; d++)
                  q[j][d] = j == k ? p->at(r, d) : v[j][d];
              REAL m[3][3];
              for (int j = 0; j < 3; j++)
                for (int d = 0; d < 3; d++)
                  m[j][d] = q[j + 1][d] - q[0][d];
              return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) -
                     m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
                     m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
            };
            const REAL full = det(-1);
            for (int k = 0; k < 4; k++)
              in = in && det(k) / full >= -1e-9;
          }
          MC_CHECK(in, "particle ", i, " is in a cell that does not contain it");
        }
      }
      MPI_Allreduce(seen.data(), sum.data(), N, MPI_INT, MPI_SUM,
                    MPI_COMM_WORLD);
      for (int i = 0; i < N; i++)
        MC_CHECK(sum[i] == 1, "particle ", i, " exists ", sum[i], " times");
    };
    g->hybrid_move();
    g->cell_move();
    check();
    step = 1 + mc::choose(2, "jump") * (N / 2);
    std::vector<REAL> nx;
    for (int i = 0; i < N; i++)
      for (int d = 0; d < 3; d++)
        nx.push_back(X(pts[(i + step) % N][d]));
    auto B = std::make_shared<BufferDevice<REAL>>(target, nx);
    auto kx = B->ptr;
    particle_loop(
        g,
        [=](auto P, auto I) {
          for (int d = 0; d < 3; d++)
            P.at(d) = kx[3 * I.at(0) + d];
        },
        Access::write(Sym<REAL>("P")), Access::read(Sym<INT>("ID")))
        ->execute();
    g->hybrid_move();
    g->cell_move();
    check();
    mc::outcome(N);
    mc::nontrivial();
    g->free();
    g.reset();
    domain.reset();
    mapper.reset();
    mesh->free();
    if (mesh->dmh_halo)
      DMDestroy(&mesh->dmh_halo->dm);
    target->free();
  }
  DMDestroy(&dm);
}
// A particle on a side of the domain with a cell of the Cartesian grid behind it
// which no mesh cell overlaps (known finding: the particle is not found).
static void reentrant2() {
  petsc();
  auto m = grid_mesh(2, 2, {0, 2, 1, 3});
  transform(m, 0);
  compact(m);
  m.find_edges();
  DMWorld w(m, {1, 0, 1, 1, 1});
  w.make_domain();
  ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true),
                    ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                    ParticleProp(Sym<INT>("ID"), 1)};
  auto g = std::make_shared<ParticleGroup>(w.domain, spec, w.target);
  const Pt q = {8, 12};
  const int own = world_rank() == 0;
  ParticleSet s(own, spec);
  if (own) {
    s[Sym<REAL>("P")][0][0] = m.X(q[0]);
    s[Sym<REAL>("P")][0][1] = m.Y(q[1]);
    s[Sym<INT>("CELL_ID")][0][0] = 0;
    s[Sym<INT>("ID")][0][0] = 0;
  }
  g->add_particles_local(s);
  mc::nontrivial();
  g->hybrid_move();
  g->cell_move();
  check_placed(w, g, {q}, {0});
  mc::outcome(1);
  g->free();
}
static void cube1() { cube(1); }
static void cube2() { cube(2); }
static void cube3() { cube(3); }
static void map1() { map_points(1); }
static void map2() { map_points(2); }
static void map3() { map_points(3); }
static void mesh1() { mesh_case(1); }
static void mesh2() { mesh_case(2); }
static void mesh3() { mesh_case(3); }
static void samp1() { sampling(1); }
static void samp2() { sampling(2); }

const mc_scenario mc_scenarios[] = {
    {"map@1", map1},     {"map@2", map2},     {"map@3", map3},
    {"mesh@1", mesh1},   {"mesh@2", mesh2},   {"mesh@3", mesh3},
    {"reentrant@2", reentrant2},
    {"sample@1", samp1}, {"sample@2", samp2},
    {"cube@1", cube1},   {"cube@2", cube2},   {"cube@3", cube3}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
