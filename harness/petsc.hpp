// Unstructured meshes with integer vertices for the PETSc harnesses.
#pragma once
#include "common.hpp"
#include <petscpartitioner.h>
namespace H {
typedef long long ll;
typedef std::array<ll, 2> Pt;
namespace PI = PetscInterface;
using NESO::Particles::PetscInterface::DMPlexInterface;

inline int world_rank() {
  int r;
  MPI_Comm_rank(MPI_COMM_WORLD, &r);
  return r;
}
inline int world_size() {
  int r;
  MPI_Comm_size(MPI_COMM_WORLD, &r);
  return r;
}
inline void petsc() {
  static bool once = false;
  if (once)
    return;
  once = true;
  static int ac = 2;
  static char a0[] = "mc", a1[] = "-no_signal_handler";
  static char *av[] = {a0, a1, nullptr};
  static char **a = av;
  PetscInitialize(&ac, &a, nullptr, nullptr);
}
#define PC(x)                                                                  \
  do {                                                                         \
    if ((x) != 0)                                                              \
      mc::fail("harness: PETSc call failed: " #x);                             \
  } while (0)

// side of c relative to the directed line a -> b
inline ll side(const Pt &a, const Pt &b, const Pt &c) {
  return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
inline bool on_segment(const Pt &a, const Pt &b, const Pt &c) {
  return side(a, b, c) == 0 && std::min(a[0], b[0]) <= c[0] &&
         c[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= c[1] &&
         c[1] <= std::max(a[1], b[1]);
}
// 0 outside, 1 inside, 2 on the boundary of the polygon
inline int in_polygon(const std::vector<Pt> &v, const Pt &p) {
  const int n = v.size();
  bool in = false;
  for (int i = 0; i < n; i++) {
    const Pt &a = v[i], &b = v[(i + 1) % n];
    if (on_segment(a, b, p))
      return 2;
    if ((a[1] > p[1]) != (b[1] > p[1])) {
      const ll s = side(a, b, p);
      if ((b[1] > a[1]) == (s > 0))
        in = !in;
    }
  }
  return in;
}
inline ll area2(const std::vector<Pt> &v) {
  ll s = 0;
  for (size_t i = 0; i < v.size(); i++) {
    const Pt &a = v[i], &b = v[(i + 1) % v.size()];
    s += a[0] * b[1] - a[1] * b[0];
  }
  return std::llabs(s);
}

struct Mesh2D {
  std::vector<Pt> vert;
  std::vector<std::vector<int>> cell;
  double sc = 0.125, ox = 0, oy = 0;
  bool exact = true; // all coordinates are exact doubles
  bool hole = false; // a quad is left out beside mid
  Pt mid = {0, 0};
  struct Edge {
    int a, b, label, ncell;
  };
  std::vector<Edge> edge;

  double X(ll x) const { return ox + sc * x; }
  double Y(ll y) const { return oy + sc * y; }
  ll IX(double x) const { return std::llround((x - ox) / sc); }
  ll IY(double y) const { return std::llround((y - oy) / sc); }
  std::vector<Pt> poly(int c) const {
    std::vector<Pt> r;
    for (int v : cell[c])
      r.push_back(vert[v]);
    return r;
  }
  // -1 outside, otherwise 2 on the domain boundary, 1 inside
  int where(const Pt &p) const {
    bool in = false;
    for (size_t c = 0; c < cell.size(); c++)
      in = in || in_polygon(poly(c), p);
    if (!in)
      return -1;
    for (auto &e : edge)
      if (e.ncell == 1 && on_segment(vert[e.a], vert[e.b], p))
        return 2;
    return 1;
  }
  void find_edges() {
    std::map<std::pair<int, int>, int> m;
    for (auto &c : cell)
      for (size_t i = 0; i < c.size(); i++) {
        int a = c[i], b = c[(i + 1) % c.size()];
        m[{std::min(a, b), std::max(a, b)}]++;
      }
    for (auto &x : m)
      edge.push_back({x.first.first, x.first.second, 0, x.second});
  }
};
// nx * ny quads of side Q, every one whole or cut along one diagonal
// (split[q] = 0, 1, 2; 3: the quad is left out).
constexpr ll Q = 8;
inline Mesh2D grid_mesh(int nx, int ny, const std::vector<int> &split) {
  Mesh2D m;
  for (int j = 0; j <= ny; j++)
    for (int i = 0; i <= nx; i++)
      m.vert.push_back({i * Q, j * Q});
  auto V = [&](int i, int j) { return j * (nx + 1) + i; };
  for (int j = 0; j < ny; j++)
    for (int i = 0; i < nx; i++) {
      const int a = V(i, j), b = V(i + 1, j), c = V(i + 1, j + 1),
                d = V(i, j + 1);
      switch (split[j * nx + i]) {
      case 0:
        m.cell.push_back({a, b, c, d});
        break;
      case 1:
        m.cell.push_back({a, b, c});
        m.cell.push_back({a, c, d});
        break;
      case 2:
        m.cell.push_back({a, b, d});
        m.cell.push_back({b, c, d});
        break;
      }
    }
  return m;
}
// drop vertices no cell uses
inline void compact(Mesh2D &m) {
  std::vector<int> id(m.vert.size(), -1);
  std::vector<Pt> nv;
  for (auto &c : m.cell)
    for (int &v : c) {
      if (id[v] < 0) {
        id[v] = nv.size();
        nv.push_back(m.vert[v]);
      }
      v = id[v];
    }
  m.vert = nv;
}

// The mesh on rank 0, then cell c on rank part[c].
inline DM make_dm(const Mesh2D &m, const std::vector<int> &part,
                  bool labels = true) {
  const int rank = world_rank(), size = world_size();
  DM dm;
  PC(DMCreate(PETSC_COMM_WORLD, &dm));
  PC(DMSetType(dm, DMPLEX));
  PC(DMSetDimension(dm, 2));
  PC(DMSetCoordinateDim(dm, 2));
  const int nc = rank ? 0 : m.cell.size(), nv = rank ? 0 : m.vert.size();
  PC(DMPlexSetChart(dm, 0, nc + nv));
  for (int c = 0; c < nc; c++)
    PC(DMPlexSetConeSize(dm, c, m.cell[c].size()));
  PC(DMSetUp(dm));
  for (int c = 0; c < nc; c++) {
    std::vector<PetscInt> cone;
    for (int v : m.cell[c])
      cone.push_back(nc + v);
    PC(DMPlexSetCone(dm, c, cone.data()));
  }
  PC(DMPlexSymmetrize(dm));
  PC(DMPlexStratify(dm));
  DM di;
  PC(DMPlexInterpolate(dm, &di));
  PC(DMDestroy(&dm));
  dm = di;
  {
    PetscInt vs, ve;
    PC(DMPlexGetDepthStratum(dm, 0, &vs, &ve));
    PC(DMSetCoordinateDim(dm, 2));
    PetscSection s;
    PC(DMGetCoordinateSection(dm, &s));
    PC(PetscSectionSetNumFields(s, 1));
    PC(PetscSectionSetFieldComponents(s, 0, 2));
    PC(PetscSectionSetChart(s, vs, ve));
    for (PetscInt v = vs; v < ve; v++) {
      PC(PetscSectionSetDof(s, v, 2));
      PC(PetscSectionSetFieldDof(s, v, 0, 2));
    }
    PC(PetscSectionSetUp(s));
    PetscInt n;
    PC(PetscSectionGetStorageSize(s, &n));
    Vec co;
    PC(VecCreate(PETSC_COMM_SELF, &co));
    PC(PetscObjectSetName((PetscObject)co, "coordinates"));
    PC(VecSetSizes(co, n, PETSC_DETERMINE));
    PC(VecSetBlockSize(co, 2));
    PC(VecSetType(co, VECSTANDARD));
    PetscScalar *p;
    PC(VecGetArray(co, &p));
    for (int v = 0; v < nv; v++) {
      PetscInt o;
      PC(PetscSectionGetOffset(s, vs + v, &o));
      p[o] = m.X(m.vert[v][0]);
      p[o + 1] = m.Y(m.vert[v][1]);
    }
    PC(VecRestoreArray(co, &p));
    PC(DMSetCoordinatesLocal(dm, co));
    PC(VecDestroy(&co));
    if (labels) {
      PC(DMCreateLabel(dm, "Face Sets"));
      for (auto &e : m.edge)
        if (e.label && rank == 0) {
          PetscInt pts[2] = {vs + e.a, vs + e.b}, k;
          const PetscInt *j;
          PC(DMPlexGetJoin(dm, 2, pts, &k, &j));
          if (k != 1)
            mc::fail("harness: edge not found");
          PC(DMSetLabelValue(dm, "Face Sets", j[0], e.label));
          PC(DMPlexRestoreJoin(dm, 2, pts, &k, &j));
        }
    }
  }
  if (size > 1) {
    PetscPartitioner pp;
    PC(DMPlexGetPartitioner(dm, &pp));
    PC(PetscPartitionerSetType(pp, PETSCPARTITIONERSHELL));
    std::vector<PetscInt> sizes(size, 0), pts;
    if (rank == 0)
      for (int r = 0; r < size; r++)
        for (size_t c = 0; c < m.cell.size(); c++)
          if (part[c] == r) {
            sizes[r]++;
            pts.push_back(c);
          }
    PC(PetscPartitionerShellSetPartition(pp, size, sizes.data(), pts.data()));
    DM dd = nullptr;
    PC(DMPlexDistribute(dm, 0, nullptr, &dd));
    if (dd) {
      PC(DMDestroy(&dm));
      dm = dd;
    }
  }
  return dm;
}

inline void transform(Mesh2D &m, int k) {
  switch (k) {
  case 0: // exact
    m.sc = 0.125;
    m.ox = m.oy = 0;
    break;
  case 1: // exact, sheared: no side is parallel to an axis any more
    m.sc = 0.25;
    m.ox = -3.5;
    m.oy = 16.0;
    for (auto &v : m.vert) {
      const ll x = v[0], y = v[1];
      v = {x + y / 2, y - x / 4};
    }
    break;
  default: // rounded coordinates
    m.sc = 0.1 / 3.0;
    m.ox = 0.7;
    m.oy = -0.3;
    m.exact = false;
  }
}
// A rank for every cell, none without cells. In the quick tier: a rank for
// every quad and possibly one triangle elsewhere.
inline std::vector<int> pick_part(const Mesh2D &m, int R, bool flip = true) {
  const int nc = m.cell.size();
  std::vector<int> part(nc, 0), n(R, 0);
  if (R == 1)
    return part;
  if (mc_tier) {
    for (auto &p : part)
      p = mc::choose(R, "rank of cell");
  } else {
    for (int c = 0; c < nc; c++) {
      part[c] = mc::choose(R, "rank of quad");
      if (m.cell[c].size() == 3) {
        part[c + 1] = part[c];
        c++;
      }
    }
    if (flip) {
      const int f = mc::choose(nc + 1, "cell on another rank");
      if (f) {
        if (m.cell[f - 1].size() == 4)
          mc_discard();
        part[f - 1] = (part[f - 1] + 1) % R;
      }
    }
  }
  for (int p : part)
    n[p]++;
  for (int k : n)
    if (!k)
      mc_discard();
  return part;
}
inline bool near(REAL a, REAL b, REAL s = 1.0) {
  return std::abs(a - b) <= 1e-12 * s;
}
inline std::vector<Pt> int_points(const Mesh2D &m,
                                  const std::vector<std::vector<REAL>> &v) {
  std::vector<Pt> r;
  for (auto &x : v) {
    MC_CHECK(x.size() == 2, "vertex with ", x.size(), " components");
    r.push_back({m.IX(x[0]), m.IY(x[1])});
    MC_CHECK(x[0] == m.X(r.back()[0]) && x[1] == m.Y(r.back()[1]),
             "vertex coordinates are not those of the mesh");
  }
  return r;
}

// Mesh, mappers and domain on one distributed DM.
struct DMWorld {
  const Mesh2D &m;
  DM dm;
  std::shared_ptr<DMPlexInterface> mesh;
  SYCLTargetSharedPtr target;
  std::shared_ptr<LocalMapper> mapper;
  DomainSharedPtr domain;
  std::vector<int> cell; // local cell -> cell of the definition
  DMWorld(const Mesh2D &m, const std::vector<int> &part, int offset = 0)
      : m(m) {
    dm = make_dm(m, part);
    mesh = std::make_shared<DMPlexInterface>(dm, offset, MPI_COMM_WORLD);
    target = std::make_shared<SYCLTarget>(0, mesh->get_comm());
    identify(part);
  }
  void make_domain() {
    mapper = std::make_shared<PI::DMPlexLocalMapper>(target, mesh);
    domain = std::make_shared<Domain>(mesh, mapper);
  }
  void identify(const std::vector<int> &part) {
    std::map<std::vector<Pt>, int> id;
    for (size_t c = 0; c < m.cell.size(); c++) {
      auto v = m.poly(c);
      std::sort(v.begin(), v.end());
      id[v] = c;
    }
    const int n = mesh->get_cell_count();
    std::vector<int> seen(m.cell.size(), 0), all(m.cell.size());
    for (int c = 0; c < n; c++) {
      std::vector<std::vector<REAL>> v;
      mesh->dmh->get_cell_vertices(c, v);
      std::vector<Pt> p;
      for (auto &x : v)
        p.push_back({m.IX(x.at(0)), m.IY(x.at(1))});
      std::sort(p.begin(), p.end());
      MC_CHECK(id.count(p), "local cell ", c, " is no cell of the mesh");
      cell.push_back(id.at(p));
      seen[cell.back()]++;
      if (world_size() > 1)
        MC_CHECK(part[cell.back()] == world_rank(), "cell ", cell.back(),
                 " is on another rank than it was sent to");
    }
    MPI_Allreduce(seen.data(), all.data(), seen.size(), MPI_INT, MPI_SUM,
                  MPI_COMM_WORLD);
    for (size_t c = 0; c < all.size(); c++)
      MC_CHECK(all[c] == 1, "cell ", c, " is owned by ", all[c], " ranks");
  }
  ~DMWorld() {
    domain.reset();
    mapper.reset();
    mesh->free();
    if (mesh->dmh_halo)
      DMDestroy(&mesh->dmh_halo->dm);
    mesh.reset();
    target->free();
    DMDestroy(&dm);
  }
};
} // namespace H
