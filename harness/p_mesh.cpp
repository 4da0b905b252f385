// Cell ownership: MeshHierarchy claims and indexing, CartesianHMesh
// decomposition, neighbour sets and boundary faces.
#include "ranks.hpp"
using namespace H;
extern "C" void mc_set_ranks_per_node(int n);

// ---- claims -------------------------------------------------------------
static void claims(int nr, int ncell, int wmax, int bound, bool doubles) {
  // node layouts: all ranks share memory, one rank per node, two per node
  const int rpn = mc::choose(3, "ranks_per_node");
  mc_set_ranks_per_node(rpn);
  if (bound)
    mc_set_sched_bound(bound);
  else
    mc_set_rank_order(mc::choose(2, "rank_order"));
  // weights 0 = no claim; the largest weight stands for INT_MAX - 1
  auto weight = [&](int w) {
    return (w == wmax) ? std::numeric_limits<int>::max() - 1 : w;
  };
  std::vector<int> w(nr * ncell), w2(nr, 0);
  for (auto &x : w)
    x = mc::choose(wmax + 1, "weight");
  if (doubles)
    for (auto &x : w2)
      x = mc::choose(wmax + 1, "second_weight");
  std::vector<std::vector<int>> owners(nr);
  mc::ranks(nr, [&](int rank) {
    auto mh = std::make_shared<MeshHierarchy>(
        MPI_COMM_WORLD, 1, std::vector<int>{ncell}, std::vector<double>{0.0},
        1.0, 0);
    mh->claim_initialise();
    for (int c = 0; c < ncell; c++)
      if (w[rank * ncell + c])
        mh->claim_cell(c, weight(w[rank * ncell + c]));
    if (w2[rank])
      mh->claim_cell(0, weight(w2[rank]));
    mh->claim_finalise();
    std::vector<int> o;
    for (int c = 0; c < ncell; c++)
      o.push_back(mh->get_owner(c));
    // the same through tuples
    std::vector<INT> t(2 * ncell);
    std::vector<int> o2(ncell, -77);
    for (int c = 0; c < ncell; c++)
      mh->linear_to_tuple_global(c, &t[2 * c]);
    mh->get_owners(ncell, t.data(), o2.data());
    MC_CHECK(o == o2, "get_owners differs from get_owner");
    mc_race_off(1);
    owners[rank] = o;
    mc_race_off(0);
    MPI_Barrier(MPI_COMM_WORLD);
    mh->free();
  });
  for (int c = 0; c < ncell; c++) {
    int best = 0, who = -1;
    for (int r = 0; r < nr; r++) {
      int x = w[r * ncell + c] ? weight(w[r * ncell + c]) : 0;
      if (c == 0 && w2[r])
        x = std::max(x, weight(w2[r]));
      if (x && x >= best) {
        best = x;
        who = r;
      }
    }
    for (int r = 0; r < nr; r++) {
      const int o = owners[r].at(c);
      if (who < 0)
        MC_CHECK(o < 0, "unclaimed cell ", c, " has owner ", o);
      else
        MC_CHECK(o == who, "cell ", c, " owner on rank ", r, " is ", o,
                 " expected ", who);
      mc::outcome((uint64_t)(o < 0 ? -1 : o));
    }
  }
  mc::nontrivial();
}
static void claims2() { claims(2, 2, 3, 0, true); }
static void claims3() { claims(3, 2, 2, 0, mc_tier > 0); }
static void claims4() { claims(4, 1, 3, 0, false); }
static void claims2s() { claims(2, 1, 2, mc_tier ? 2 : 1, true); }
static void claims3s() { claims(3, 1, 2, 1, false); }

// ---- indexing -----------------------------------------------------------
static void indexing() {
  const int ndim = 1 + mc::choose(3, "ndim");
  std::vector<int> dims;
  for (int d = 0; d < ndim; d++)
    dims.push_back(1 + mc::choose(mc_tier ? 4 : 3, "dim"));
  const int order = mc::choose(3, "subdivision_order");
  const double extent = std::vector<double>{1.0, 0.5, 4.0}[mc::choose(3, "extent")];
  const double org = mc::choose(2, "origin") ? -2.0 : 0.0;
  std::vector<double> origin;
  for (int d = 0; d < ndim; d++)
    origin.push_back(org * (d + 1));
  auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
  auto mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, ndim, dims, origin,
                                            extent, order);
  const INT f = (INT)1 << order;
  INT n = 1;
  for (int d = 0; d < ndim; d++)
    n *= dims[d] * f;
  MC_CHECK(mh->ncells_global == n, "ncells_global ", mh->ncells_global);
  MC_CHECK(mh->ncells_dim_fine == f, "ncells_dim_fine");
  MeshHierarchyMapper mapper(target, mh);
  auto hm = mapper.get_host_mapper();
  auto dm = mapper.get_device_mapper();
  std::set<INT> seen;
  const double wf = extent / f;
  std::vector<INT> cart(ndim), t(2 * ndim), t2(2 * ndim), t3(2 * ndim),
      c2(ndim);
  BufferDevice<REAL> d_pos(target, 3);
  BufferDevice<INT> d_out(target, 12);
  for (INT k = 0; k < n; k++) {
    INT r = k;
    for (int d = 0; d < ndim; d++) {
      cart[d] = r % (dims[d] * f);
      r /= dims[d] * f;
      t[d] = cart[d] / f;
      t[ndim + d] = cart[d] % f;
    }
    const INT lin = mh->tuple_to_linear_global(t.data());
    MC_CHECK(lin >= 0 && lin < n, "linear index ", lin, " out of range");
    MC_CHECK(seen.insert(lin).second, "linear index ", lin, " used twice");
    // coarse index is the slow one, x runs fastest (documented layout)
    INT lc = 0, lf = 0;
    for (int d = ndim - 1; d >= 0; d--) {
      lc = lc * dims[d] + t[d];
      lf = lf * f + t[ndim + d];
    }
    MC_CHECK(lin == lc * mh->ncells_fine + lf, "layout of linear index ", lin);
    MC_CHECK(mh->tuple_to_linear_coarse(t.data()) == lc, "coarse linear");
    MC_CHECK(mh->tuple_to_linear_fine(t.data() + ndim) == lf, "fine linear");
    mh->linear_to_tuple_global(lin, t2.data());
    MC_CHECK(t == t2, "tuple of linear index ", lin);
    mh->linear_to_tuple_coarse(lc, t2.data());
    mh->linear_to_tuple_fine(lf, t2.data() + ndim);
    MC_CHECK(t == t2, "coarse/fine tuple of linear index ", lin);
    MC_CHECK(hm.tuple_to_linear_global(t.data()) == lin, "mapper linear index");
    MC_CHECK(hm.tuple_to_linear_coarse(t.data()) == lc, "mapper coarse");
    MC_CHECK(hm.tuple_to_linear_fine(t.data() + ndim) == lf, "mapper fine");
    hm.map_tuple_to_cart_tuple(t.data(), c2.data());
    MC_CHECK(c2 == cart, "cart tuple");
    hm.cart_tuple_to_tuple(cart.data(), t2.data());
    MC_CHECK(t == t2, "cart tuple to tuple");
    // positions: lower corner, centre, just below the upper corner
    for (int q = 0; q < 4; q++) {
      REAL pos[3] = {0, 0, 0};
      for (int d = 0; d < ndim; d++) {
        const REAL lo = origin[d] + cart[d] * wf;
        pos[d] = q == 0 ? lo : q == 1 ? lo + 0.5 * wf : q == 2
                     ? lo + wf * (1.0 - 1.0 / 4096) : lo + wf;
        // the upper corner belongs to this cell only at the domain boundary
        if (q == 3 && cart[d] + 1 < dims[d] * f)
          pos[d] = lo + 0.25 * wf;
      }
      hm.map_to_tuple(pos, t3.data());
      MC_CHECK(t3 == t, "host mapper places position kind ", q, " of cell ",
               lin, " elsewhere");
      target->queue.memcpy(d_pos.ptr, pos, sizeof(pos)).wait();
      auto pp = d_pos.ptr;
      auto po = d_out.ptr;
      target->queue.fill(po, (INT)-99, 12).wait();
      target->queue
          .submit([&](sycl::handler &cgh) {
            cgh.single_task<>([=]() {
              dm.map_to_tuple(pp, po);
              dm.map_to_cart_tuple_no_trunc(pp, po + 6);
              po[9] = dm.tuple_to_linear_global(po);
            });
          })
          .wait_and_throw();
      std::vector<INT> o(12);
      target->queue.memcpy(o.data(), po, 12 * sizeof(INT)).wait();
      for (int j = 0; j < 2 * ndim; j++)
        MC_CHECK(o[j] == t[j], "device mapper tuple");
      MC_CHECK(o[9] == lin, "device mapper linear index");
      if (q != 3)
        for (int d = 0; d < ndim; d++)
          MC_CHECK(o[6 + d] == cart[d], "no_trunc cart index");
    }
  }
  // positions outside the hierarchy
  for (int off = -3; off <= 3; off++)
    for (int d = 0; d < ndim; d++) {
      REAL pos[3];
      for (int e = 0; e < ndim; e++)
        pos[e] = origin[e] + 0.5 * wf;
      pos[d] += off * wf + 0.25 * wf;
      hm.map_to_cart_tuple_no_trunc(pos, c2.data());
      for (int e = 0; e < ndim; e++)
        MC_CHECK(c2[e] == (e == d ? off : 0), "no_trunc index of offset ", off,
                 " dim ", d, " is ", c2[e]);
    }
  for (int d = 0; d < ndim; d++) { // clearly beyond the upper end
    REAL pos[3];
    for (int e = 0; e < ndim; e++)
      pos[e] = origin[e] + 0.5 * wf;
    pos[d] = origin[d] + dims[d] * extent + 0.5 * wf;
    hm.map_to_tuple(pos, t3.data());
    MC_CHECK(t3[d] < 0, "position beyond the mesh mapped to coarse cell ",
             t3[d]);
  }
  mc::nontrivial();
  mc::outcome(n);
  mh->free();
  target->free();
}

static void neighbours() {
  const int ndim = 1 + mc::choose(3, "ndim");
  std::vector<int> dims;
  for (int d = 0; d < ndim; d++)
    dims.push_back(1 + mc::choose(3, "dim"));
  const int order = mc::choose(2, "subdivision_order");
  const int f = 1 << order;
  const int offset = mc::choose(3, "offset");
  for (int d = 0; d < ndim; d++)
    if (offset > dims[d] * f)
      mc_discard();
  const bool pbc = mc::choose(2, "pbc");
  auto mh = std::make_shared<MeshHierarchy>(MPI_COMM_WORLD, ndim, dims,
                                            std::vector<double>(ndim, 0.0), 1.0,
                                            order);
  auto lin = [&](const std::vector<INT> &c) {
    std::vector<INT> t(2 * ndim);
    for (int d = 0; d < ndim; d++) {
      t[d] = c[d] / f;
      t[ndim + d] = c[d] % f;
    }
    return mh->tuple_to_linear_global(t.data());
  };
  std::vector<std::vector<INT>> carts(mh->ncells_global);
  for (INT k = 0; k < mh->ncells_global; k++) {
    std::vector<INT> c(ndim);
    INT r = k;
    for (int d = 0; d < ndim; d++) {
      c[d] = r % (dims[d] * f);
      r /= dims[d] * f;
    }
    carts[lin(c)] = c;
  }
  auto near = [&](INT a, INT b) {
    for (int d = 0; d < ndim; d++) {
      INT x = std::abs(carts[a][d] - carts[b][d]);
      if (pbc)
        x = std::min(x, dims[d] * f - x);
      if (x > offset)
        return false;
    }
    return true;
  };
  for (INT a = 0; a < mh->ncells_global; a++) {
    std::set<INT> got, want;
    get_neighbour_mh_cells(mh, a, offset, pbc, got);
    for (INT b = 0; b < mh->ncells_global; b++)
      if (b != a && near(a, b))
        want.insert(b);
    MC_CHECK(got == want, "neighbours of cell ", a, ": ", got.size(),
             " instead of ", want.size());
    const INT extra = (a * 5 + 1) % mh->ncells_global;
    std::vector<INT> in{a, (a + 2) % mh->ncells_global}, ex{extra}, out{-5};
    get_neighbour_mh_cells(mh, in, ex, offset, pbc, out);
    std::set<INT> w2{extra};
    for (INT b = 0; b < mh->ncells_global; b++)
      if (near(in[0], b) || near(in[1], b))
        w2.insert(b);
    MC_CHECK(std::set<INT>(out.begin(), out.end()) == w2 &&
                 out.size() == w2.size(),
             "cells around a set");
  }
  mc::nontrivial();
  mc::outcome(mh->ncells_global * 8 + offset * 2 + pbc);
  mh->free();
}

// ---- CartesianHMesh -------------------------------------------------------
struct Owned {
  std::vector<std::array<int, 3>> cells;
  std::vector<INT> faces;
};
static void cart(int ndim, int maxdim, int maxranks) {
  std::vector<int> dims;
  for (int d = 0; d < ndim; d++)
    dims.push_back(1 + mc::choose(maxdim, "dim"));
  const int order = mc::choose(2, "subdivision_order");
  const int f = 1 << order;
  const int nr = 1 + mc::choose(maxranks, "ranks");
  const int stencil = mc::choose(3, "stencil");
  const int topo = mc::choose(2, "cartesian_communicator");
  std::vector<int> cc;
  int big = 0;
  for (int d = 0; d < ndim; d++) {
    cc.push_back(dims[d] * f);
    if (cc[d] > cc[big])
      big = d;
  }
  // a decomposition along one dimension must exist (documented fallback)
  if (cc[big] < nr)
    mc_discard();
  mc_set_ranks_per_node(mc::choose(2, "ranks_per_node"));
  mc_set_rank_order(mc::choose(2, "rank_order"));
  const double extent = 0.5;
  const double wf = extent / f;
  std::vector<Owned> own(nr);
  mc::ranks(nr, [&](int rank) {
    MPI_Comm comm = MPI_COMM_WORLD, cartc = MPI_COMM_NULL;
    if (topo) { // the user's own Cartesian communicator fixes the layout
      int md[3] = {1, 1, 1}, per[3] = {1, 1, 1};
      md[big] = nr;
      MPI_Cart_create(MPI_COMM_WORLD, ndim, md, per, 0, &cartc);
      comm = cartc;
    }
    auto mesh = std::make_shared<CartesianHMesh>(comm, ndim, dims, extent,
                                                 order, stencil);
    auto mh = mesh->get_mesh_hierarchy();
    int myrank = -1;
    MPI_Comm_rank(mesh->get_comm(), &myrank);
    Owned o;
    o.cells = mesh->get_owned_cells();
    o.faces = mesh->get_owned_face_cells();
    MC_CHECK((int)o.cells.size() == mesh->get_cell_count() &&
                 (int)o.cells.size() == mesh->get_cart_cell_count(),
             "cell count ", mesh->get_cell_count(), " but ", o.cells.size(),
             " owned cells");
    MC_CHECK(!o.cells.empty(), "rank owns no cell");
    for (size_t k = 0; k < o.cells.size(); k++)
      MC_CHECK(mesh->get_global_cell_tuple_index(k) == o.cells[k],
               "tuple of local cell ", k);
    for (int d = 0; d < ndim; d++)
      MC_CHECK(mesh->global_extents[d] == extent * dims[d] &&
                   mesh->cell_counts[d] == cc[d],
               "extents");
    double pt[3] = {0, 0, 0};
    mesh->get_point_in_subdomain(pt);
    bool inside = false;
    for (auto &c : o.cells) {
      bool in = true;
      for (int d = 0; d < ndim; d++)
        in = in && pt[d] >= c[d] * wf && pt[d] <= (c[d] + 1) * wf;
      inside = inside || in;
    }
    MC_CHECK(inside, "point in subdomain is outside");
    mc_race_off(1);
    own[myrank] = o;
    mc_race_off(0);
    MPI_Barrier(MPI_COMM_WORLD);
    mc_race_off(1);
    std::map<std::array<int, 3>, int> owner;
    for (int r = 0; r < nr; r++)
      for (auto &c : own[r].cells) {
        MC_CHECK(!owner.count(c), "cell owned by two ranks");
        for (int d = 0; d < 3; d++)
          MC_CHECK(c[d] >= 0 && c[d] < (d < ndim ? cc[d] : 1), "cell index");
        owner[c] = r;
      }
    size_t n = 1;
    for (int d = 0; d < ndim; d++)
      n *= cc[d];
    MC_CHECK(owner.size() == n, owner.size(), " of ", n, " cells are owned");
    for (auto &[c, r] : owner) {
      INT ix[3] = {c[0], c[1], c[2]}, t[6];
      MC_CHECK(mesh->get_mesh_tuple_owning_rank(ix) == r,
               "get_mesh_tuple_owning_rank of ", c[0], ",", c[1], ",", c[2]);
      mesh->mesh_tuple_to_mh_tuple(ix, t);
      for (int d = 0; d < ndim; d++)
        MC_CHECK(t[d] * f + t[ndim + d] == ix[d] && t[ndim + d] < f, "mh tuple");
      MC_CHECK(mh->get_owner(mh->tuple_to_linear_global(t)) == r,
               "mesh hierarchy owner of ", c[0], ",", c[1], ",", c[2]);
    }
    // neighbour ranks: owners of cells within the periodic stencil
    std::set<int> want;
    for (auto &[c, r] : owner)
      for (auto &x : own[myrank].cells) {
        bool near = true;
        for (int d = 0; d < ndim; d++) {
          int dx = std::abs(c[d] - x[d]);
          dx = std::min(dx, cc[d] - dx);
          near = near && dx <= stencil;
        }
        if (near)
          want.insert(r);
      }
    auto nb = mesh->get_local_communication_neighbours();
    MC_CHECK(std::set<int>(nb.begin(), nb.end()) == want &&
                 nb.size() == want.size(),
             "neighbour ranks of ", myrank);
    // boundary faces
    if (ndim > 1) {
      const int nf = 2 * ndim;
      // normal direction and side of each face, tangential directions
      const int nd[6] = {1, 0, 1, 0, 2, 2}, up[6] = {0, 1, 1, 0, 0, 1};
      const int t0[6] = {0, 1, 0, 1, 0, 0}, t1[6] = {2, 2, 2, 2, 1, 1};
      INT id = 0;
      std::map<INT, int> fo;
      for (int r = 0; r < nr; r++)
        for (auto x : own[r].faces) {
          MC_CHECK(!fo.count(x), "face cell ", x, " owned by two ranks");
          fo[x] = r;
        }
      std::map<INT, std::vector<INT>> byface;
      for (int fx = 0; fx < nf; fx++)
        for (INT l1 = 0; l1 < (ndim == 3 ? cc[t1[fx]] : 1); l1++)
          for (INT l0 = 0; l0 < cc[t0[fx]]; l0++, id++) {
            INT t[3] = {fx, l0, l1}, u[3] = {-1, -1, -1}, m[3] = {0, 0, 0};
            MC_CHECK(mesh->get_face_linear_index_from_tuple(t) == id,
                     "linear index of face tuple");
            mesh->get_face_id_as_tuple(id, u);
            MC_CHECK(u[0] == fx && u[1] == l0 && (ndim == 2 || u[2] == l1),
                     "face tuple of id ", id);
            mesh->get_mesh_tuple_owning_face_tuple(t, m);
            std::array<int, 3> c{0, 0, 0};
            c[t0[fx]] = l0;
            if (ndim == 3)
              c[t1[fx]] = l1;
            c[nd[fx]] = up[fx] ? cc[nd[fx]] - 1 : 0;
            for (int d = 0; d < ndim; d++)
              MC_CHECK(m[d] == c[d], "cell behind face cell ", id);
            MC_CHECK(mesh->get_face_id_owning_rank(id) == owner.at(c),
                     "owner of face cell ", id);
            MC_CHECK(mesh->get_face_id_owning_rank(id) == owner.at(c),
                     "cached owner of face cell ", id);
            MC_CHECK(fo.count(id) && fo[id] == owner.at(c), "face cell ", id,
                     " is not in its owner's list");
            if (owner.at(c) == myrank)
              byface[fx].push_back(id);
            // geometry of the face cell
            for (int variant = 0; variant < 2; variant++) {
              auto p = variant ? mesh->get_vtk_face_cell_points(id)
                               : mesh->get_vtk_face_cell_points(t);
              const int np = ndim == 2 ? 2 : 4;
              MC_CHECK((int)p.size() == 3 * np, "face points");
              std::set<std::array<double, 3>> ps;
              for (int k = 0; k < np; k++) {
                ps.insert({p[3 * k], p[3 * k + 1], p[3 * k + 2]});
                MC_CHECK(p[3 * k + nd[fx]] ==
                             (up[fx] ? cc[nd[fx]] * wf : 0.0),
                         "vertex of face cell ", id, " is not on face ", fx);
              }
              std::set<std::array<double, 3>> q;
              for (int a = 0; a < 2; a++)
                for (int b = 0; b < (ndim == 3 ? 2 : 1); b++) {
                  std::array<double, 3> v{0, 0, 0};
                  v[nd[fx]] = up[fx] ? cc[nd[fx]] * wf : 0.0;
                  v[t0[fx]] = (l0 + a) * wf;
                  if (ndim == 3)
                    v[t1[fx]] = (l1 + b) * wf;
                  q.insert(v);
                }
              MC_CHECK(ps == q, "vertices of face cell ", id);
            }
          }
      MC_CHECK(id == mesh->ncells_face_global && (INT)fo.size() == id,
               "number of face cells ", mesh->ncells_face_global, " owned ",
               fo.size(), " of ", id);
      std::vector<INT> all;
      std::vector<int> fs;
      for (int fx = 0; fx < nf; fx++) {
        auto v = mesh->get_all_face_cells_on_face(fx);
        std::sort(v.begin(), v.end());
        MC_CHECK(v == byface[fx], "owned face cells on face ", fx);
        if (fx != 1) {
          fs.push_back(fx);
          all.insert(all.end(), v.begin(), v.end());
        }
      }
      auto got = mesh->get_face_cells(fs);
      std::sort(got.begin(), got.end());
      std::sort(all.begin(), all.end());
      MC_CHECK(got == all, "get_face_cells");
      auto fc = mesh->get_face_owning_ranks_comm();
      MC_CHECK((fc != MPI_COMM_NULL) == !own[myrank].faces.empty(),
               "face communicator");
      if (fc != MPI_COMM_NULL) {
        int s = 0, w = 0;
        MPI_Comm_size(fc, &s);
        for (auto &x : own)
          w += !x.faces.empty();
        MC_CHECK(s == w, "size of the face communicator");
      }
      auto data = mesh->get_vtk_face_cell_data();
      MC_CHECK(data.size() == own[myrank].faces.size(), "vtk face data");
    }
    // cell geometry
    auto cd = mesh->get_vtk_cell_data();
    MC_CHECK(cd.size() == own[myrank].cells.size(), "vtk cell data");
    for (size_t k = 0; k < cd.size(); k++) {
      const int np = 1 << ndim;
      MC_CHECK(cd[k].num_points == np && (int)cd[k].points.size() == 3 * np,
               "vtk cell points");
      std::set<std::array<double, 3>> ps, q;
      for (int j = 0; j < np; j++) {
        ps.insert({cd[k].points[3 * j], cd[k].points[3 * j + 1],
                   cd[k].points[3 * j + 2]});
        std::array<double, 3> v{0, 0, 0};
        for (int d = 0; d < ndim; d++)
          v[d] = (own[myrank].cells[k][d] + ((j >> d) & 1)) * wf;
        q.insert(v);
      }
      MC_CHECK(ps == q, "vertices of local cell ", k);
    }
    mc_race_off(0);
    MPI_Barrier(MPI_COMM_WORLD);
    mesh->free();
    if (topo)
      MPI_Comm_free(&cartc);
  });
  for (auto &o : own)
    mc::outcome(o.cells.size() * 1000 + o.faces.size());
  mc::nontrivial();
}
static void cart2() { cart(2, mc_tier ? 5 : 4, mc_tier ? 8 : 6); }
static void cart3() { cart(3, mc_tier ? 4 : 3, mc_tier ? 6 : 4); }

const mc_scenario mc_scenarios[] = {
    {"claims_2_ranks", claims2},   {"claims_3_ranks", claims3},
    {"claims_4_ranks", claims4},   {"claims_2_ranks_schedules", claims2s},
    {"claims_3_ranks_schedules", claims3s}, {"indexing", indexing},
    {"neighbour_cells", neighbours}, {"cartesian_2d", cart2},
    {"cartesian_3d", cart3}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) {
  return mc_main(c, v, mc_scenarios, mc_num_scenarios);
}
