// File output: H5Part trajectories (written, reopened, read back by any number
// of ranks), VTKHDF files and the mesh hierarchy plot.
// MC-VARIANT: h
#include "ranks.hpp"
#include <fstream>
#include <unistd.h>
using namespace H;

static const char *FILE_NAME = "/mc/out.h5part";

static std::vector<int> dims_for(int ndim, int nr) {
  std::vector<int> d{2 * nr};
  for (int k = 1; k < ndim; k++)
    d.push_back(1);
  return d;
}

struct Row {
  std::vector<REAL> P, V;
  std::vector<INT> A, ID;
};

// what a step has to hold: id -> increment applied to V
typedef std::map<INT, int> Step;

static void check_row(const char *when, const Step &want, std::set<INT> &seen,
                      int ndim, INT id, const std::vector<REAL> *P,
                      const std::vector<REAL> *V, const std::vector<INT> *A) {
  MC_CHECK(want.count(id), when, ": row of unknown particle ", id);
  MC_CHECK(seen.insert(id).second, when, ": particle ", id, " twice");
  auto ref = base_part(ndim, (int)id, 0);
  if (P)
    for (int d = 0; d < ndim; d++)
      MC_CHECK((*P)[d] == ref.r["P"][d], when, ": position ", d,
               " of particle ", id, ": ", (*P)[d], " expected ",
               ref.r["P"][d]);
  if (V)
    for (int d = 0; d < 3; d++)
      MC_CHECK((*V)[d] == ref.r["V"][d] + want.at(id), when, ": V ", d,
               " of particle ", id, ": ", (*V)[d], " expected ",
               ref.r["V"][d] + want.at(id));
  if (A)
    for (int d = 0; d < 2; d++)
      MC_CHECK((*A)[d] == ref.i["A"][d], when, ": A ", d, " of particle ", id);
}

// The datasets of one step, as stored.
static void check_step(const char *when, h5mc::Node &root, INT step,
                       const Step &want, int ndim, bool withP) {
  const std::string sn = "Step#" + std::to_string(step);
  MC_CHECK(root.kids.count(sn), when, ": group ", sn, " is missing");
  auto &g = *root.kids[sn];
  const size_t n = want.size();
  if (n == 0) {
    for (auto &k : g.kids)
      MC_CHECK(k.second->size() == 0, when, ": data in an empty step");
    return;
  }
  std::set<std::string> names;
  auto col = [&](const std::string &nm, bool real) -> h5mc::Node & {
    MC_CHECK(g.kids.count(nm), when, ": dataset ", sn, "/", nm, " is missing");
    names.insert(nm);
    auto &d = *g.kids[nm];
    MC_CHECK(d.dims.size() == 1 && d.dims[0] == n, when, ": extent of ", sn,
             "/", nm, " is ", d.size(), " expected ", n);
    MC_CHECK(d.is_float() == real, when, ": type of ", nm);
    for (auto w : d.writes)
      MC_CHECK(w == 1, when, ": an entry of ", sn, "/", nm, " was written ", w,
               " times");
    return d;
  };
  const char *xyz[3] = {"x", "y", "z"};
  std::set<INT> seen;
  for (size_t k = 0; k < n; k++) {
    std::vector<REAL> P, P2, V;
    std::vector<INT> A;
    for (int d = 0; d < ndim; d++)
      P.push_back(col(xyz[d], true).f[k]);
    if (withP)
      for (int d = 0; d < ndim; d++)
        P2.push_back(col("P_" + std::to_string(d), true).f[k]);
    for (int d = 0; d < 3; d++)
      V.push_back(col("V_" + std::to_string(d), true).f[k]);
    for (int d = 0; d < 2; d++)
      A.push_back(col("A_" + std::to_string(d), false).i[k]);
    const INT id = col("ID_0", false).i[k];
    check_row(when, want, seen, ndim, id, &P, &V, &A);
    if (withP)
      MC_CHECK(P == P2, when, ": x,y,z and P differ for particle ", id);
  }
  MC_CHECK(names.size() == g.kids.size(), when, ": unexpected datasets");
}

struct Conf {
  int nr, ndim, target, nsteps, bound;
  std::vector<int> readers; // numbers of ranks which read
};

static void trajectory(Conf c, int maxocc, bool all_ops) {
  h5mc::reset();
  if (c.bound)
    mc_set_sched_bound(c.bound);
  mc_set_rank_order(mc::choose(2, "rank_order"));
  const int ncells = 2;
  std::vector<std::vector<int>> occ(c.nr, std::vector<int>(ncells));
  int total = 0;
  for (auto &r : occ)
    for (auto &x : r) {
      x = mc::choose(maxocc + 1, "occ");
      total += x;
    }
  std::vector<int> op(c.nsteps);
  // 0 nothing 1 close 2 explicit step number 3 modify 4 remove 5 move 6 both
  const int nops = c.target == 1 ? 4 : 7;
  for (int k = 0; k < c.nsteps; k++)
    op[k] = all_ops || k ? mc::choose(k ? nops : 3, "op") : 0;
  const bool withP = mc::choose(2, "with_positions");
  const int nread = c.readers[mc::choose((int)c.readers.size(), "readers")];
  const bool reopen = nread == c.nr && mc::choose(2, "read_from_writer") == 0;
  const bool use_xyz = !withP || mc::choose(2, "xyz");

  std::vector<Step> local(c.nr);          // per rank contents of the group
  std::vector<std::pair<INT, Step>> want; // written steps
  int id = 0;
  for (int r = 0; r < c.nr; r++)
    for (int x = 0; x < occ[r][0] + occ[r][1]; x++)
      local[r][id++] = 0;
  std::vector<std::vector<Row>> got(std::max(c.nr, nread));

  auto reader = [&](H5Part &h, int rank, int nranks, World &w) {
    for (auto &st : want) {
      ParticleSpec s;
      s.push(ParticleProp(Sym<REAL>("P"), c.ndim, true));
      s.push(ParticleProp(Sym<INT>("ID"), 1));
      s.push(ParticleProp(Sym<INT>("A"), 2));
      s.push(ParticleProp(Sym<REAL>("V"), 3));
      auto ps = h.read(s, st.first, use_xyz);
      std::vector<Row> rows;
      for (int k = 0; k < ps->npart; k++) {
        Row r;
        for (int d = 0; d < c.ndim; d++)
          r.P.push_back(ps->at(Sym<REAL>("P"), k, d));
        for (int d = 0; d < 3; d++)
          r.V.push_back(ps->at(Sym<REAL>("V"), k, d));
        for (int d = 0; d < 2; d++)
          r.A.push_back(ps->at(Sym<INT>("A"), k, d));
        r.ID.push_back(ps->at(Sym<INT>("ID"), k, 0));
        rows.push_back(r);
      }
      mc_race_off(1);
      got[rank] = rows;
      mc_race_off(0);
      MPI_Barrier(MPI_COMM_WORLD);
      if (rank == 0) {
        mc_race_off(1);
        std::set<INT> seen;
        for (int r = 0; r < nranks; r++)
          for (auto &x : got[r])
            check_row("read", st.second, seen, c.ndim, x.ID[0], &x.P, &x.V,
                      &x.A);
        MC_CHECK(seen.size() == st.second.size(), "read returned ", seen.size(),
                 " of ", st.second.size(), " particles of step ", st.first);
        mc_race_off(0);
      }
      MPI_Barrier(MPI_COMM_WORLD);
    }
  };

  mc::ranks(c.nr, [&](int rank) {
    World w(dims_for(c.ndim, c.nr));
    auto spec = base_spec(c.ndim);
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    {
      std::vector<Part> mine;
      int k = 0;
      for (auto &x : local[rank])
        mine.push_back(base_part(c.ndim, (int)x.first,
                                 k++ < occ[rank][0] ? 0 : 1));
      g->add_particles_local(to_set(mine, spec));
    }
    ParticleSubGroupSharedPtr sub;
    auto sel = [=](auto ID) { return ID.at(0) % 2 == 0; };
    if (c.target == 1)
      sub = static_particle_sub_group(pg(g), sel,
                                      Access::read(Sym<INT>("ID")));
    else if (c.target == 2)
      sub = particle_sub_group(pg(g), sel, Access::read(Sym<INT>("ID")));
    std::shared_ptr<H5Part> h;
    auto ctor = [&](auto grp) {
      if (withP)
        h = std::make_shared<H5Part>(FILE_NAME, grp, Sym<REAL>("P"),
                                     Sym<INT>("A"), Sym<INT>("ID"),
                                     Sym<REAL>("V"));
      else
        h = std::make_shared<H5Part>(FILE_NAME, grp, Sym<INT>("ID"),
                                     Sym<REAL>("V"), Sym<INT>("A"));
    };
    if (sub)
      ctor(sub);
    else
      ctor(pg(g));
    INT step = 0;
    for (int k = 0; k < c.nsteps; k++) {
      INT arg = -1;
      const int o = op[k];
      if (o == 1)
        h->close();
      if (o == 2)
        arg = 10 * (k + 1);
      if (o == 3 || o == 6) {
        particle_loop(
            pg(g),
            [=](auto V) {
              for (int d = 0; d < 3; d++)
                V.at(d) += 1;
            },
            Access::write(Sym<REAL>("V")))
            ->execute();
        mc_race_off(1);
        for (auto &x : local[rank])
          x.second++;
        mc_race_off(0);
      }
      if (o == 4 || o == 6) {
        g->remove_particles(particle_sub_group(
            pg(g), [=](auto ID) { return ID.at(0) % 3 == 2; },
            Access::read(Sym<INT>("ID"))));
        mc_race_off(1);
        for (auto it = local[rank].begin(); it != local[rank].end();)
          it = it->first % 3 == 2 ? local[rank].erase(it) : std::next(it);
        mc_race_off(0);
      }
      if (o == 5) {
        const int to = (rank + 1) % c.nr;
        particle_loop(
            pg(g), [=](auto R) { R.at(0) = to; },
            Access::write(Sym<INT>("NESO_MPI_RANK")))
            ->execute();
        g->global_move();
        MPI_Barrier(MPI_COMM_WORLD);
        if (rank == 0) {
          mc_race_off(1);
          std::rotate(local.begin(), local.end() - 1, local.end());
          mc_race_off(0);
        }
        MPI_Barrier(MPI_COMM_WORLD);
      }
      h->write(arg);
      if (arg >= 0)
        step = arg;
      MPI_Barrier(MPI_COMM_WORLD);
      if (rank == 0) {
        mc_race_off(1);
        Step s;
        for (auto &l : local)
          for (auto &x : l)
            if (c.target == 0 || x.first % 2 == 0)
              s.insert(x);
        want.push_back({step, s});
        mc_race_off(0);
      }
      MPI_Barrier(MPI_COMM_WORLD);
      step++;
    }
    if (nread == c.nr && !reopen)
      reader(*h, rank, c.nr, w); // through the writing instance
    h->close();
    if (rank == 0) {
      mc_race_off(1);
      auto &root = *h5mc::store().files[FILE_NAME];
      MC_CHECK(root.kids.size() == want.size(), "number of steps");
      for (auto &s : want)
        check_step("file", root, s.first, s.second, c.ndim, withP);
      mc_race_off(0);
    }
    h.reset();
    sub.reset();
    g.reset();
  });
  if (nread != c.nr || reopen)
    mc::ranks(nread, [&](int rank) {
      World w(dims_for(c.ndim, nread));
      H5Part h(FILE_NAME, w.target);
      reader(h, rank, nread, w);
      h.close();
    });
  if (total)
    mc::nontrivial();
  for (auto &s : want) {
    mc::outcome((uint64_t)s.first);
    for (auto &x : s.second)
      mc::outcome((uint64_t)x.first * 8 + x.second);
  }
}
static void traj1() {
  trajectory({1, 2 + mc::choose(2, "ndim"), mc::choose(3, "target"), 2, 0,
              {1, 2, 3}},
             2, true);
}
static void traj2() {
  trajectory({2, 2, mc::choose(3, "target"), 2, 0, {1, 2, 3}}, mc_tier ? 2 : 1,
             mc_tier);
}
static void traj2_bulk() {
  trajectory({2, 2, mc::choose(3, "target"), 1, 0, {1, 2, 3}}, mc_tier ? 4 : 3,
             false);
}
static void traj3() {
  trajectory({3, 2, mc::choose(3, "target"), mc_tier ? 2 : 1, 0, {2, 3, 4}}, 1,
             false);
}

// ---- restart: written particles become the particles of a new run -----------
static void restart() {
  h5mc::reset();
  const int nr = 1 + mc::choose(3, "ranks"), nr2 = 1 + mc::choose(3, "ranks2");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  const int nx = 6; // cells, divisible by each number of ranks
  std::vector<int> cellof;
  const int np = mc_tier ? 5 : 4;
  for (int k = 0; k < np; k++)
    cellof.push_back(mc::choose(mc_tier ? 3 : 2, "cell") * (mc_tier ? 2 : 4) +
                     k % 2);
  auto part = [&](int id) {
    auto p = base_part(2, id, 0,
                       {cellof[id] + 0.25 + 0.1 * id, 0.5 + 0.05 * id});
    return p;
  };
  auto spec = base_spec(2);
  auto place = [](World &w, TG &g, ParticleSetSharedPtr ps) {
    g.add_particles_local(ps);
    g.hybrid_move();
    g.cell_move();
  };
  mc::ranks(nr, [&](int rank) {
    World w({nx, 1});
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    std::vector<Part> mine;
    for (int k = 0; k < np; k++)
      if (k % nr == rank)
        mine.push_back(part(k));
    place(w, *g, to_set(mine, spec));
    H5Part h(FILE_NAME, pg(g), Sym<REAL>("V"), Sym<INT>("A"), Sym<INT>("ID"));
    h.write();
    h.close();
    g.reset();
  });
  std::vector<std::vector<Part>> found(nr2);
  mc::ranks(nr2, [&](int rank) {
    World w({nx, 1});
    auto g = std::make_shared<TG>(w.domain, spec, w.target);
    H5Part h(FILE_NAME, w.target);
    ParticleSpec rs{ParticleProp(Sym<REAL>("P"), 2, true),
                    ParticleProp(Sym<REAL>("V"), 3),
                    ParticleProp(Sym<INT>("A"), 2),
                    ParticleProp(Sym<INT>("ID"), 1)};
    auto ps = h.read(rs, 0, true);
    h.close();
    auto full = std::make_shared<ParticleSet>(ps->npart, spec);
    full->set(*ps); // CELL_ID stays 0
    place(w, *g, full);
    g->check_internal();
    auto mine = snapshot(*g);
    mc_race_off(1);
    found[rank] = mine;
    mc_race_off(0);
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank == 0) {
      mc_race_off(1);
      std::vector<Part> got, want;
      for (int r = 0; r < nr2; r++)
        for (auto p : found[r]) {
          p.cell = 0;
          const INT id = p.i.at("ID").at(0);
          MC_CHECK(id >= 0 && id < np, "unknown particle");
          MC_CHECK(cellof[id] / (nx / nr2) == r, "particle ", id, " on rank ",
                   r);
          got.push_back(p);
        }
      for (int k = 0; k < np; k++)
        want.push_back(part(k));
      compare(got, want, {"NESO_MPI_RANK", "CELL_ID"}, "restart");
      mc::nontrivial();
      for (auto &f : found)
        hash_state(f);
      mc_race_off(0);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    g.reset();
  });
}

// ---- VTKHDF ------------------------------------------------------------------
static void vtk() {
  h5mc::reset();
  const int nr = 1 + mc::choose(3, "ranks");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  const int npoints[8] = {1, 2, 3, 4, 4, 5, 6, 8};
  const VTK::CellType types[8] = {
      VTK::CellType::point,       VTK::CellType::line,
      VTK::CellType::triangle,    VTK::CellType::quadrilateral,
      VTK::CellType::tetrahedron, VTK::CellType::pyramid,
      VTK::CellType::wedge,       VTK::CellType::hex};
  const int wanttype[8] = {1, 3, 5, 9, 10, 14, 13, 12};
  // ranks outside of the communicator write nothing
  const int member = nr == 1 ? 1 : 1 + mc::choose((1 << nr) - 1, "members");
  const bool data = mc::choose(2, "with_data");
  std::vector<std::vector<int>> cells(nr);
  const int nk = nr == 3 ? 2 : mc_tier ? 8 : 4, mx = nr == 1 ? 3 : 2;
  for (int r = 0; r < nr; r++) {
    if (!((member >> r) & 1))
      continue;
    const int n = mc::choose(mx + 1, "ncells");
    for (int k = 0; k < n; k++) {
      const int t = mc::choose(nk, "kind");
      cells[r].push_back(nk == 8 ? t : (t * 3 + r + k) % 8);
    }
  }
  const bool keys = data; // some ranks may have no cells
  int next = 0;
  std::vector<std::vector<VTK::UnstructuredCell>> ref(nr);
  for (int r = 0; r < nr; r++)
    for (auto t : cells[r]) {
      VTK::UnstructuredCell u;
      u.num_points = npoints[t];
      u.cell_type = types[t];
      for (int k = 0; k < 3 * u.num_points; k++)
        u.points.push_back(rval(next, k));
      if (data) {
        u.cell_data["u"] = rval(next, 50);
        u.cell_data["v"] = rval(next, 51);
        for (int k = 0; k < u.num_points; k++) {
          u.point_data["p"].push_back(rval(next, 60 + k));
          u.point_data["q"].push_back(rval(next, 80 + k));
        }
      }
      next++;
      ref[r].push_back(u);
    }
  mc::ranks(nr, [&](int rank) {
    MPI_Comm comm = MPI_COMM_NULL;
    MPI_Comm_split(MPI_COMM_WORLD,
                   ((member >> rank) & 1) ? 0 : MPI_UNDEFINED, rank, &comm);
    {
      VTK::VTKHDF v("/mc/out.vtkhdf", comm);
      auto mine = ref[rank];
      if (keys)
        v.write(mine, {"p", "q"}, {"u", "v"});
      else
        v.write(mine);
      v.close();
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (comm != MPI_COMM_NULL)
      MPI_Comm_free(&comm);
  });
  auto &root = *h5mc::store().files["/mc/out.vtkhdf"];
  MC_CHECK(root.kids.count("VTKHDF"), "root group");
  auto &g = *root.kids["VTKHDF"];
  MC_CHECK(g.attrs.count("Version") && g.attrs["Version"]->v.size() == 2 &&
               g.attrs["Version"]->v[0] == 2,
           "version attribute");
  MC_CHECK(g.attrs.count("Type") && g.attrs["Type"]->s == "UnstructuredGrid",
           "type attribute");
  auto ds = [&](h5mc::Node &n, const std::string &nm, bool real, size_t d0,
                size_t d1 = 0) -> h5mc::Node & {
    MC_CHECK(n.kids.count(nm), "dataset ", nm, " is missing");
    auto &d = *n.kids[nm];
    MC_CHECK(d.is_float() == real, "type of ", nm);
    MC_CHECK(d.dims.size() == (d1 ? 2 : 1) && d.dims[0] == d0 &&
                 (!d1 || d.dims[1] == d1),
             "extent of ", nm);
    for (auto w : d.writes)
      MC_CHECK(w == 1, nm, ": an entry was written ", w, " times");
    return d;
  };
  size_t np = 0, nc = 0, nm = 0;
  for (int r = 0; r < nr; r++) {
    nm += (member >> r) & 1;
    nc += cells[r].size();
    for (auto t : cells[r])
      np += npoints[t];
  }
  auto &P = ds(g, "Points", true, np, 3);
  auto &T = ds(g, "Types", false, nc);
  auto &Cn = ds(g, "Connectivity", false, np);
  auto &O = ds(g, "Offsets", false, nc + nm);
  auto &NP = ds(g, "NumberOfPoints", false, nm);
  auto &NC = ds(g, "NumberOfCells", false, nm);
  auto &NI = ds(g, "NumberOfConnectivityIds", false, nm);
  MC_CHECK(g.kids.count("PointData") && g.kids.count("CellData"),
           "data groups");
  auto &pd = *g.kids["PointData"];
  auto &cd = *g.kids["CellData"];
  MC_CHECK(pd.kids.size() == (data ? 2u : 0u) &&
               cd.kids.size() == (data ? 2u : 0u),
           "data sets");
  // read the file as a VTK reader does: one piece per rank
  size_t p0 = 0, c0 = 0, i0 = 0, o0 = 0, piece = 0;
  for (int r = 0; r < nr; r++) {
    if (!((member >> r) & 1))
      continue;
    size_t want_p = 0;
    for (auto t : cells[r])
      want_p += npoints[t];
    MC_CHECK(NC.i[piece] == (int64_t)cells[r].size(), "cells of piece ", piece);
    MC_CHECK(NP.i[piece] == (int64_t)want_p, "points of piece ", piece);
    MC_CHECK(NI.i[piece] == (int64_t)want_p, "connectivity of piece ", piece);
    for (size_t k = 0; k < cells[r].size(); k++) {
      auto &u = ref[r][k];
      MC_CHECK(T.i[c0 + k] == wanttype[cells[r][k]], "type of cell ", k,
               " of piece ", piece);
      const int64_t b = O.i[o0 + k], e = O.i[o0 + k + 1];
      MC_CHECK(b >= 0 && e - b == u.num_points && e <= NI.i[piece],
               "offsets of cell ", k, " of piece ", piece, ": ", b, " ", e);
      for (int q = 0; q < u.num_points; q++) {
        const int64_t v = Cn.i[i0 + b + q];
        MC_CHECK(v >= 0 && v < NP.i[piece], "connectivity of cell ", k);
        for (int d = 0; d < 3; d++)
          MC_CHECK(P.f[(p0 + v) * 3 + d] == u.points[3 * q + d], "point ", q,
                   " of cell ", k, " of piece ", piece);
        if (data)
          for (auto nmx : {"p", "q"})
            MC_CHECK(ds(pd, nmx, true, np).f[p0 + v] == u.point_data[nmx][q],
                     "point data ", nmx, " of cell ", k, " of piece ", piece);
      }
      if (data)
        for (auto nmx : {"u", "v"})
          MC_CHECK(ds(cd, nmx, true, nc).f[c0 + k] == u.cell_data[nmx],
                   "cell data ", nmx, " of cell ", k, " of piece ", piece);
    }
    c0 += cells[r].size();
    p0 += want_p;
    i0 += want_p;
    o0 += cells[r].size() + 1;
    piece++;
  }
  if (nc)
    mc::nontrivial();
  mc::outcome_v(P.f);
  mc::outcome_v(O.i);
}

// ---- functions on the boundary of a CartesianHMesh ----------------------------
static void surface_vtk() {
  h5mc::reset();
  const int nr = 1 + mc::choose(3, "ranks");
  const int nx = 2 * nr, ny = 1 + mc::choose(2, "ny"), sub = mc::choose(2, "sub");
  const int ndim = 2 + mc::choose(2, "ndim");
  mc_set_rank_order(mc::choose(2, "rank_order"));
  if (ndim == 3 && !mc_tier && (ny == 2 || sub == 1))
    mc_discard();
  const int faces = 2 * ndim;
  const int fmask = mc::choose(1 << faces, "faces");
  if (fmask == 0)
    mc_discard();
  std::map<std::array<double, 3>, double> centre; // of a face cell -> value
  mc::ranks(nr, [&](int rank) {
    std::vector<int> dims{nx, ny};
    if (ndim == 3)
      dims.push_back(1);
    World w(dims, sub);
    std::vector<int> fl;
    for (int f = 0; f < faces; f++)
      if ((fmask >> f) & 1)
        fl.push_back(f);
    auto fcells = w.mesh->get_face_cells(fl);
    auto fn = std::make_shared<CartesianHMeshFunction>(w.mesh, w.target,
                                                       ndim - 1, fcells, "DG", 0, 1);
    std::vector<REAL> dofs(fcells.size());
    for (size_t k = 0; k < fcells.size(); k++)
      dofs[k] = rval((int)fcells[k], 3);
    fn->set_dofs(dofs);
    mc_race_off(1);
    for (size_t k = 0; k < fcells.size(); k++) {
      auto pts = w.mesh->get_vtk_face_cell_points(fcells[k]);
      std::array<double, 3> c{0, 0, 0};
      for (size_t q = 0; q < pts.size(); q++)
        c[q % 3] += pts[q];
      MC_CHECK(centre.emplace(c, dofs[k]).second, "face cell owned twice");
    }
    mc_race_off(0);
    fn->write_vtkhdf("/mc/f.vtkhdf");
    MPI_Barrier(MPI_COMM_WORLD);
    fn.reset();
  });
  // number of boundary cells on the selected faces
  const int s = 1 << sub;
  size_t want = 0;
  for (int f = 0; f < faces; f++)
    if ((fmask >> f) & 1) {
      if (ndim == 2)
        want += (f % 2 == 0 ? nx : ny) * s;
      else
        want += (f >= 4 ? nx * ny : (f % 2 == 0 ? nx : ny)) * s * s;
    }
  auto &root = *h5mc::store().files["/mc/f.vtkhdf"];
  MC_CHECK(root.kids.count("VTKHDF"), "root group");
  auto &g = *root.kids["VTKHDF"];
  auto &P = *g.kids["Points"];
  auto &T = *g.kids["Types"];
  MC_CHECK(g.kids["CellData"]->kids.count("u"), "cell data u");
  auto &U = *g.kids["CellData"]->kids["u"];
  const int npc = ndim == 2 ? 2 : 4;
  MC_CHECK(T.i.size() == want && U.f.size() == want &&
               P.f.size() == want * npc * 3,
           "boundary file has ", T.i.size(), " cells, expected ", want);
  std::set<std::array<double, 3>> seen;
  for (size_t k = 0; k < want; k++) {
    MC_CHECK(T.i[k] == (ndim == 2 ? 3 : 9), "cell type");
    std::array<double, 3> c{0, 0, 0};
    for (int q = 0; q < 3 * npc; q++)
      c[q % 3] += P.f[k * npc * 3 + q];
    MC_CHECK(seen.insert(c).second, "boundary cell twice");
    MC_CHECK(centre.count(c) && centre[c] == U.f[k], "value of boundary cell ",
             k);
    for (int d = 0; d < ndim; d++) {
      const double len = (d == 0 ? nx : d == 1 ? ny : 1);
      MC_CHECK(c[d] >= 0 && c[d] <= len * npc, "outside of the mesh");
    }
  }
  mc::nontrivial();
  mc::outcome(want * 64 + fmask);
}

// ---- plot of a MeshHierarchy ---------------------------------------------------
// Every selected cell is drawn by exactly its edges; the file is a legacy VTK
// file with consistent counts.
static void hierarchy_plot() {
  const int ndim = 1 + mc::choose(3, "ndim");
  const int mode = mc::choose(3, "mode"); // selected cells, all fine, coarse
  const int sub = mc::choose(2, "sub");
  std::vector<int> dims;
  for (int d = 0; d < ndim; d++)
    dims.push_back(1 + mc::choose(2, "dims"));
  std::vector<double> origin;
  for (int d = 0; d < ndim; d++)
    origin.push_back(0.5 * (d + 1));
  const double extent = 2.0;
  const int s = 1 << sub;
  int nfine = 1, ncoarse = 1;
  for (auto d : dims) {
    nfine *= d * s;
    ncoarse *= d;
  }
  std::vector<int> cells;
  if (mode == 0) {
    const int n = mc::choose(3, "ncells");
    for (int k = 0; k < n; k++)
      cells.push_back(mc::choose(std::min(nfine, 16), "cell"));
  }
  char name[64];
  snprintf(name, sizeof name, "/tmp/mc_plot_%d.vtk", (int)getpid());
  // expected edges as pairs of points in units of the plotted cell width
  typedef std::array<int, 3> V;
  std::multiset<std::pair<V, V>> want;
  auto draw = [&](V b) {
    for (int d = 0; d < ndim; d++)
      for (int m = 0; m < (1 << (ndim - 1)); m++) {
        V p = b;
        int bit = 0;
        for (int e = 0; e < ndim; e++)
          if (e != d)
            p[e] += (m >> bit++) & 1;
        V q = p;
        q[d]++;
        want.insert({p, q});
      }
  };
  mc::ranks(1, [&](int) {
    MeshHierarchy mh(MPI_COMM_WORLD, ndim, dims, origin, extent, sub);
    VTKMeshHierarchyCellsWriter w(std::shared_ptr<MeshHierarchy>(
        &mh, [](MeshHierarchy *) {}));
    if (mode == 0)
      for (int c : cells) {
        w.push_back(c);
        // independent of the class: coarse cells in lexicographic order, fine
        // cells in lexicographic order within each
        int fine = 1;
        for (int d = 0; d < ndim; d++)
          fine *= s;
        int cc = c / fine, ff = c % fine;
        V b{0, 0, 0};
        for (int d = 0; d < ndim; d++) {
          b[d] = (cc % dims[d]) * s + ff % s;
          cc /= dims[d];
          ff /= s;
        }
        draw(b);
      }
    else {
      const int m = mode == 1 ? s : 1;
      for (int z = 0; z < (ndim > 2 ? dims[2] * m : 1); z++)
        for (int y = 0; y < (ndim > 1 ? dims[1] * m : 1); y++)
          for (int x = 0; x < dims[0] * m; x++)
            draw({x, y, z});
    }
    if (mode == 0)
      w.write(name);
    else if (mode == 1)
      w.write_all_fine(name);
    else
      w.write_all_coarse(name);
    mh.free();
  });
  std::ifstream in(name);
  std::string line, tok;
  for (int k = 0; k < 4; k++)
    std::getline(in, line);
  MC_CHECK(line == "DATASET UNSTRUCTURED_GRID", "header ", line);
  size_t np = 0, ne = 0, ni = 0, nt = 0;
  in >> tok >> np >> line;
  MC_CHECK(tok == "POINTS" && in, "points");
  std::vector<V> pts(np);
  std::set<V> uniq;
  const double width = extent / (mode == 2 ? 1 : s);
  for (auto &p : pts) {
    for (int d = 0; d < 3; d++) {
      double x = 0;
      in >> x;
      const double k = (x - (d < ndim ? origin[d] : 0.0)) / width;
      p[d] = (int)std::lround(k);
      MC_CHECK(std::abs(k - p[d]) < 1e-12, "coordinate ", x);
    }
    MC_CHECK(uniq.insert(p).second, "point twice");
  }
  in >> tok >> ne >> ni;
  MC_CHECK(tok == "CELLS" && in && ni == 3 * ne, "cells");
  std::multiset<std::pair<V, V>> got;
  for (size_t k = 0; k < ne; k++) {
    size_t n = 0, a = 0, b = 0;
    in >> n >> a >> b;
    MC_CHECK(in && n == 2 && a < np && b < np, "edge ", k);
    got.insert({std::min(pts[a], pts[b]), std::max(pts[a], pts[b])});
  }
  in >> tok >> nt;
  MC_CHECK(tok == "CELL_TYPES" && in && nt == ne, "cell types");
  for (size_t k = 0; k < nt; k++) {
    int t = 0;
    in >> t;
    MC_CHECK(in && t == 3, "type of edge ", k);
  }
  in.close();
  unlink(name);
  MC_CHECK(got == want, "edges of the plot: ", got.size(), " expected ",
           want.size());
  if (ne)
    mc::nontrivial();
  mc::outcome(ne * 1000 + np);
}

const mc_scenario mc_scenarios[] = {
    {"h5part_1_rank", traj1},
    {"h5part_2_ranks", traj2},
    {"h5part_2_ranks_bulk", traj2_bulk},
    {"h5part_3_ranks", traj3},
    {"h5part_restart", restart},
    {"vtkhdf", vtk},
    {"mesh_hierarchy_plot", hierarchy_plot},
    {"vtkhdf_surface_function", surface_vtk},
};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
