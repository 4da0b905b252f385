// Helpers for external meshes: DOF orderings, overlay meshes, bounding box
// claims, quadrature points and advection of new particles to their owners.
#include "ranks.hpp"
#include <neso_particles/external_interfaces/common/common.hpp>
#include <neso_particles/external_interfaces/common/local_claim.hpp>
#include <neso_particles/external_interfaces/common/overlay_cartesian_mesh.hpp>
#include <neso_particles/external_interfaces/common/dof_mapper_dg.hpp>
using namespace H;
namespace EC = NESO::Particles::ExternalCommon;

// ---- DOF mapper -------------------------------------------------------------
static void dofs(int nc, int nd, int depth) {
  const int n = nc * nd;
  std::vector<int> perm, left;
  for (int k = 0; k < n; k++)
    left.push_back(k);
  while (!left.empty()) {
    const int c = mc::choose((int)left.size(), "external index");
    perm.push_back(left[c]);
    left.erase(left.begin() + c);
  }
  mc::ranks(1, [&](int) {
    World w({1, 1});
    EC::DOFMapperDG m(w.target, nc, nd);
    auto cdc = std::make_shared<CellDatConst<REAL>>(w.target, nc, nd, 1);
    for (int k = 0; k < n; k++) {
      m.set(k / nd, k % nd, perm[k]);
    }
    std::vector<REAL> in(n), ext(n);
    REAL v = 1;
    auto write_in = [&]() {
      for (int k = 0; k < n; k++) {
        in[k] = v++;
        cdc->set_value(k / nd, k % nd, 0, in[k]);
      }
    };
    auto write_ext = [&]() {
      for (auto &x : ext)
        x = v++;
    };
    write_in();
    write_ext();
    EventStack es;
    for (int d = 0; d < depth; d++) {
      const int op = mc::choose(5, "operation");
      mc::outcome(op);
      if (op == 0) {
        m.copy_to_external(cdc, ext.data(), es);
        es.wait();
        for (int k = 0; k < n; k++)
          MC_CHECK(ext[perm[k]] == in[k], "external dof ", perm[k]);
      } else if (op == 1) {
        auto before = ext;
        m.copy_from_external(cdc, ext.data(), es);
        es.wait();
        MC_CHECK(ext == before, "external values were changed");
        for (int k = 0; k < n; k++)
          in[k] = ext[perm[k]];
      } else if (op == 2)
        write_in();
      else if (op == 3)
        write_ext();
      else if (n > 1) {
        std::swap(perm[0], perm[n - 1]);
        m.set(0, 0, perm[0]);
        m.set(nc - 1, nd - 1, perm[n - 1]);
      }
      for (int k = 0; k < n; k++) {
        MC_CHECK(m.get(k / nd, k % nd) == perm[k], "get");
        MC_CHECK(m.index(k / nd, k % nd) == k, "index");
        MC_CHECK(cdc->get_value(k / nd, k % nd, 0) == in[k], "internal dof ",
                 k);
      }
    }
    // device mapper
    BufferDevice<int> out(w.target, n);
    auto *o = out.ptr;
    auto dm = m.get_device_mapper();
    w.target->queue
        .parallel_for(sycl::range<1>(n),
                      [=](auto i) {
                        o[i] = dm.get((int)i / nd, (int)i % nd);
                      })
        .wait_and_throw();
    MC_CHECK(out.get() == perm, "device mapper");
    mc::nontrivial();
  });
}
static void dofs2x2() { dofs(2, 2, mc_tier ? 4 : 3); }
static void dofs1x3() { dofs(1, 3, mc_tier ? 5 : 4); }
static void dofs3x1() { dofs(3, 1, mc_tier ? 5 : 4); }

// ---- overlay mesh -----------------------------------------------------------
static void overlay(int ndim, int maxc) {
  std::vector<int> cc(ndim);
  std::vector<REAL> origin(ndim), ext(ndim), wid(ndim);
  for (int d = 0; d < ndim; d++) {
    cc[d] = 1 + mc::choose(maxc, "cells");
    wid[d] = d == 1 ? 2.0 : 0.5;
    ext[d] = wid[d] * cc[d];
    origin[d] = d == 0 ? -1.25 : (d == 1 ? 0.5 : 0.0);
  }
  mc::ranks(1, [&](int) {
    auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    {
      EC::OverlayCartesianMesh m(target, ndim, origin, ext, cc);
      int total = 1;
      for (int c : cc)
        total *= c;
      MC_CHECK(m.get_cell_count() == total, "cell count");
      auto hm = m.get_host_mapper();
      auto dm = m.get_device_mapper();
      // every cell: linear index, bounding box
      std::set<int> seen;
      auto tuple_of = [&](int c) {
        std::vector<int> t(ndim);
        for (int d = 0; d < ndim; d++) {
          t[d] = c % cc[d];
          c /= cc[d];
        }
        return t;
      };
      for (int c = 0; c < total; c++) {
        auto t = tuple_of(c);
        const int l = m.get_linear_cell_index(t);
        MC_CHECK(l >= 0 && l < total && seen.insert(l).second,
                 "linear index ", l);
        MC_CHECK(hm.get_linear_cell_index(t) == l, "host mapper index");
        MC_CHECK(hm.valid_linear_cell_index(t), "valid index");
        auto bb = m.get_bounding_box(t);
        for (int d = 0; d < ndim; d++) {
          MC_CHECK(bb->lower(d) == origin[d] + t[d] * wid[d] &&
                       bb->upper(d) == origin[d] + (t[d] + 1) * wid[d],
                   "bounding box of a cell");
          auto u = t;
          u[d] = -1;
          MC_CHECK(!hm.valid_linear_cell_index(u), "negative index valid");
          u[d] = cc[d];
          MC_CHECK(!hm.valid_linear_cell_index(u), "large index valid");
        }
      }
      // points in each dimension, 8 per cell and the ends
      for (int d = 0; d < ndim; d++) {
        const int np = 8 * cc[d] + 1;
        std::vector<REAL> pts(np);
        for (int k = 0; k < np; k++)
          pts[k] = origin[d] + wid[d] * k / 8.0;
        BufferDevice<REAL> dp(target, pts);
        BufferDevice<int> dc(target, np);
        auto *kp = dp.ptr;
        auto *kc = dc.ptr;
        target->queue
            .parallel_for(
                sycl::range<1>(np),
                [=](auto i) { kc[i] = dm.get_cell_in_dimension(d, kp[i]); })
            .wait_and_throw();
        auto got = dc.get();
        for (int k = 0; k < np; k++) {
          const int want = std::min(k / 8, cc[d] - 1);
          MC_CHECK(m.get_cell_in_dimension(d, pts[k]) == want, "cell of point ",
                   pts[k], " in dimension ", d);
          MC_CHECK(hm.get_cell_in_dimension(d, pts[k]) == want, "host mapper");
          MC_CHECK(got[k] == want, "device mapper");
        }
        // device mapper clamps points outside
        MC_CHECK(hm.get_cell_in_dimension(d, origin[d] - 3 * wid[d]) == 0 &&
                     hm.get_cell_in_dimension(d, origin[d] + ext[d] +
                                                     3 * wid[d]) == cc[d] - 1,
                 "points outside the mesh");
      }
      // all boxes with corners on quarter cells (and a little outside)
      const int step = ndim == 3 ? 2 : (ndim == 2 ? 2 : 1); // quarters
      std::vector<std::vector<std::pair<int, int>>> ivals(ndim);
      for (int d = 0; d < ndim; d++)
        for (int a = -step; a <= 4 * cc[d] + step; a += step)
          for (int b = a; b <= 4 * cc[d] + step; b += step)
            ivals[d].push_back({a, b});
      std::vector<size_t> it(ndim, 0);
      long long nbox = 0;
      while (true) {
        std::vector<REAL> b(6, 0.0);
        std::vector<std::vector<int>> want(ndim);
        bool strict = true;
        for (int d = 0; d < ndim; d++) {
          auto [lo, hi] = ivals[d][it[d]];
          b[d] = origin[d] + wid[d] * lo / 4.0;
          b[3 + d] = origin[d] + wid[d] * hi / 4.0;
          for (int c = 0; c < cc[d]; c++)
            if (lo <= 4 * (c + 1) && hi >= 4 * c)
              want[d].push_back(c);
          if (lo < 0 || hi > 4 * cc[d])
            strict = false;
        }
        std::vector<int> cells;
        m.get_intersecting_cells(std::make_shared<EC::BoundingBox>(b), cells);
        std::set<int> got(cells.begin(), cells.end());
        MC_CHECK(got.size() == cells.size(), "a cell was returned twice");
        std::set<int> w{};
        for (int c = 0; c < total; c++) {
          auto t = tuple_of(c);
          bool in = true;
          for (int d = 0; d < ndim; d++)
            in = in && std::count(want[d].begin(), want[d].end(), t[d]);
          if (in)
            w.insert(m.get_linear_cell_index(t));
        }
        for (int c : got)
          MC_CHECK(c >= 0 && c < total, "cell index range");
        for (int c : w)
          MC_CHECK(got.count(c), "touching cell ", c, " is missing for box ",
                   b[0], " ", b[3], " ", b[1], " ", b[4], " ", b[2], " ", b[5]);
        if (strict)
          MC_CHECK(got == w, "a cell that the box does not touch");
        nbox++;
        int d = 0;
        while (d < ndim && ++it[d] == ivals[d].size())
          it[d++] = 0;
        if (d == ndim)
          break;
      }
      if (total > 1)
        mc::nontrivial();
    }
    target->free();
  });
}
static void overlay1() { overlay(1, 4); }
static void overlay2() { overlay(2, 3); }
static void overlay3() { overlay(3, mc_tier ? 3 : 2); }

static void overlay_create() {
  const int ndim = 1 + mc::choose(3, "ndim");
  const int ncells = mc::choose(mc_tier ? 40 : 18, "ncells");
  std::vector<REAL> b = {-1.0, 0.5, 2.0, 0, 0, 0};
  for (int d = 0; d < ndim; d++)
    b[3 + d] = b[d] + (1 << mc::choose(3, "extent")) * 0.75;
  mc::ranks(1, [&](int) {
    auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    auto m = EC::create_overlay_mesh(
        target, ndim, std::make_shared<EC::BoundingBox>(b), ncells);
    const int n = m->get_cell_count();
    MC_CHECK(n >= ncells && (n == 1 || n / 2 < ncells), "cell count ", n,
             " for ", ncells);
    REAL lo = 1e9, hi = 0;
    for (int d = 0; d < ndim; d++) {
      MC_CHECK(m->origin[d] == b[d] && m->extents[d] == b[3 + d] - b[d],
               "extent");
      MC_CHECK(m->cell_widths[d] * m->cell_counts[d] == m->extents[d], "width");
      lo = std::min(lo, m->cell_widths[d]);
      if (m->cell_counts[d] > 1)
        hi = std::max(hi, m->cell_widths[d]);
    }
    for (int d = 0; d < ndim; d++) // never split a dimension that is narrower
      if (m->cell_counts[d] > 1)
        for (int e = 0; e < ndim; e++)
          MC_CHECK(m->cell_widths[e] <= 2 * m->cell_widths[d],
                   "widest dimension was not split first");
    if (n > 1)
      mc::nontrivial();
    m.reset();
    target->free();
  });
}

static void boxes() {
  // bounding boxes: expansion is the union, containment is closed
  const REAL G[3] = {-1.0, 0.5, 2.0};
  const int ndim = 1 + mc::choose(3, "ndim");
  std::array<std::array<int, 6>, 2> c{};
  auto iv = [&](int &lo, int &hi) {
    const int k = mc::choose(6, "interval");
    const int t[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
    lo = t[k][0];
    hi = t[k][1];
  };
  for (auto &x : c)
    for (int d = 0; d < (ndim == 3 ? 2 : ndim); d++)
      iv(x[d], x[3 + d]);
  auto mk = [&](std::array<int, 6> &x) {
    std::vector<REAL> v(6);
    for (int k = 0; k < 6; k++)
      v[k] = G[x[k]];
    return std::make_shared<EC::BoundingBox>(v);
  };
  auto a = std::make_shared<EC::BoundingBox>();
  a->expand(mk(c[0]));
  for (int d = 0; d < 3; d++)
    MC_CHECK(a->lower(d) == G[c[0][d]] && a->upper(d) == G[c[0][3 + d]],
             "expand of an empty box");
  a->expand(mk(c[1]));
  for (int d = 0; d < 3; d++)
    MC_CHECK(a->lower(d) == G[std::min(c[0][d], c[1][d])] &&
                 a->upper(d) == G[std::max(c[0][3 + d], c[1][3 + d])],
             "expand");
  const REAL Q[7] = {-1.5, -1.0, 0.0, 0.5, 1.0, 2.0, 2.5};
  for (int x = 0; x < 7; x++)
    for (int y = 0; y < (ndim > 1 ? 7 : 1); y++)
      for (int z = 0; z < (ndim > 2 ? 7 : 1); z++) {
        std::vector<REAL> p{Q[x], Q[y], Q[z]};
        bool in = true;
        for (int d = 0; d < ndim; d++)
          in = in && p[d] >= a->lower(d) && p[d] <= a->upper(d);
        MC_CHECK(a->contains_point(ndim, p) == in, "contains_point");
      }
  mc::nontrivial();
}

// ---- claims -----------------------------------------------------------------
static void claim_calls() {
  std::map<std::int64_t, std::pair<int, double>> m;
  EC::LocalClaim lc;
  for (int k = 0; k < (mc_tier ? 5 : 4); k++) {
    const int i = mc::choose(2, "index");
    const int wgt = mc::choose(3, "weight");
    const double f = wgt + 0.125 * k;
    lc.claim(i, wgt, f);
    if (wgt > 0 && (!m.count(i) || wgt > m[i].first))
      m[i] = {wgt, f};
    std::set<std::int64_t> want;
    for (auto &x : m)
      want.insert(x.first);
    MC_CHECK(lc.claim_cells == want, "claimed cells");
    for (auto &x : m)
      MC_CHECK(lc.claim_weights.at(x.first).weight == x.second.first &&
                   lc.claim_weights.at(x.first).weightf == x.second.second,
               "weight of cell ", x.first);
  }
  mc::nontrivial();
}
// All boxes with corners on a grid of half fine cells claim exactly the cells
// they overlap with the overlap as the weight.
static void claims(int ndim, std::vector<int> dims, int sub, int nelem) {
  const int f = 1 << sub;
  const double extent = 2.0, h = extent / f;
  const double org[3] = {-1.0, 0.5, 4.0};
  // elements: per dimension an interval in quarter fine cells
  std::vector<std::array<std::array<int, 2>, 3>> el(nelem);
  for (auto &e : el)
    for (int d = 0; d < ndim; d++) {
      const int n = dims[d] * f * 2; // half cells
      const int step = ndim == 3 ? 2 : 1;
      const int lo = -1 + step * mc::choose((n + 1) / step + 1, "lower");
      const int hi = lo + 1 + step * mc::choose((n - lo) / step + 1, "upper");
      e[d] = {lo, std::min(hi, n + 1)};
    }
  mc::ranks(1, [&](int) {
    auto mh = std::make_shared<MeshHierarchy>(
        MPI_COMM_WORLD, ndim, dims,
        std::vector<double>(org, org + ndim), extent, sub);
    EC::LocalClaim lc;
    EC::MHGeomMap gm;
    std::map<INT, std::pair<int, double>> wm;
    std::map<INT, std::deque<int>> wg;
    int total = 1;
    for (int d = 0; d < ndim; d++)
      total *= dims[d] * f;
    for (int k = 0; k < nelem; k++) {
      std::vector<REAL> b(6, 0.0);
      for (int d = 0; d < ndim; d++) {
        b[d] = org[d] + el[k][d][0] * h / 2;
        b[3 + d] = org[d] + el[k][d][1] * h / 2;
      }
      auto bb = std::make_shared<EC::BoundingBox>(b);
      EC::bounding_box_claim(10 + k, bb, mh, lc, gm);
      std::deque<std::pair<INT, double>> cells{{-1, -1.0}};
      EC::bounding_box_map(bb, mh, cells);
      std::map<INT, double> want, got;
      for (auto &c : cells)
        MC_CHECK(got.insert(c).second, "cell mapped twice");
      for (int c = 0; c < total; c++) {
        std::int64_t im[3];
        INT tup[6];
        int r = c;
        double vol = 1.0, ratio = 1.0;
        INT wtup[6];
        for (int d = 0; d < ndim; d++) {
          im[d] = r % (dims[d] * f);
          r /= dims[d] * f;
          const int lo = std::max<int>(el[k][d][0], 2 * im[d]);
          const int hi = std::min<int>(el[k][d][1], 2 * im[d] + 2);
          const double ov = hi > lo ? (hi - lo) / 2.0 : 0.0;
          vol *= ov * h;
          ratio *= ov;
          wtup[d] = im[d] / f;
          wtup[d + ndim] = im[d] % f;
          MC_CHECK(EC::overlap_1d(b[d] - org[d], b[3 + d] - org[d], im[d],
                                  h) == ov * h,
                   "overlap_1d");
        }
        EC::mesh_tuple_to_mh_tuple(ndim, im, mh, tup);
        for (int d = 0; d < 2 * ndim; d++)
          MC_CHECK(tup[d] == wtup[d], "mesh hierarchy tuple");
        if (vol > 0) {
          const INT g = mh->tuple_to_linear_global(tup);
          want[g] = vol;
          const int iw = 1000000.0 * ratio;
          if (!wm.count(g) || iw > wm[g].first)
            wm[g] = {iw, ratio};
          wg[g].push_back(10 + k);
        }
      }
      MC_CHECK(want == got, "cells and volumes");
    }
    MC_CHECK(lc.claim_cells.size() == wm.size(), "number of claimed cells");
    for (auto &x : wm) {
      MC_CHECK(lc.claim_cells.count(x.first), "cell not claimed");
      MC_CHECK(lc.claim_weights.at(x.first).weight == x.second.first &&
                   lc.claim_weights.at(x.first).weightf == x.second.second,
               "claim weight");
    }
    MC_CHECK(gm == wg, "cells to geometry objects");
    if (wm.size() > 1)
      mc::nontrivial();
    mc::outcome((long long)wm.size());
    mh->free();
  });
}
static void claims1() { claims(1, {2}, 1, mc_tier ? 3 : 2); }
static void claims2() { claims(2, {2, 1}, 1, 1); }
static void claims2b() { claims(2, {1, 1}, 0, 2); }
static void claims3() { claims(3, {2, 1, 2}, mc_tier, 1); }

// ---- quadrature points --------------------------------------------------------
static void quad(int nr, int maxp, int npos, int bound) {
  if (bound)
    mc_set_sched_bound(bound);
  else
    mc_set_rank_order(mc::choose(2, "rank order"));
  const REAL POS[4][2] = {{0.25, 0.5}, {1.75, 0.25}, {1.0, 1.0}, {0.25, 1.5}};
  std::vector<std::vector<int>> add(nr);
  for (auto &a : add) {
    const int n = mc::choose(maxp + 1, "points");
    for (int k = 0; k < n; k++)
      a.push_back(mc::choose(npos, "position"));
  }
  const int ncomp = 1 + 2 * mc::choose(2, "ncomp");
  mc::ranks(nr, [&](int rank) {
    World w({nr == 3 ? 3 : 2, 2});
    {
      auto q = std::make_shared<EC::QuadraturePointMapper>(w.target, w.domain);
      MC_CHECK(!q->points_added(), "points_added before");
      q->add_points_initialise();
      for (int p : add[rank])
        q->add_point(POS[p]);
      q->add_points_finalise();
      MC_CHECK(q->points_added(), "points_added after");
      // owner of each position
      INT own[4];
      for (int p = 0; p < 4; p++)
        own[p] = -1;
      {
        std::vector<INT> have(4, 0);
        for (auto &c : w.mesh->get_owned_cells())
          for (int p = 0; p < 4; p++)
            if (c[0] == (int)POS[p][0] && c[1] == (int)POS[p][1])
              have[p] = rank + 1;
        std::vector<INT> all(4);
        MPI_Allreduce(have.data(), all.data(), 4, MPI_INT64_T, MPI_MAX,
                      MPI_COMM_WORLD);
        for (int p = 0; p < 4; p++)
          own[p] = all[p] - 1;
      }
      INT nown = 0;
      for (auto &a : add)
        for (int p : a)
          nown += own[p] == rank;
      MC_CHECK(q->particle_group->get_npart_local() == nown, "points held");
      std::vector<REAL> out(5, -1.0);
      if (ncomp == 1)
        EC::interpolate<2, 1>(
            q, [=](auto x, auto y) { return 2.0 * x + 7.0 * y; });
      else
        EC::interpolate<2, 3>(
            q, [=](auto x, auto y) { return 2.0 * x + 7.0 * y; },
            [=](auto x, auto y) { return 2.0 * x + 7.0 * y + 100.0; },
            [=](auto x, auto y) { return 2.0 * x + 7.0 * y + 200.0; });
      std::vector<REAL> want;
      for (int p : add[rank])
        for (int c = 0; c < ncomp; c++)
          want.push_back(2.0 * POS[p][0] + 7.0 * POS[p][1] + 100.0 * c);
      q->get(ncomp, out);
      MC_CHECK(out == want, "interpolated values in adding order");
      // a second representation with another number of components
      const int nc2 = 4 - ncomp;
      EC::interpolate<2>(q, nc2, nc2 - 1,
                         [=](auto x, auto y) { return x - 3.0 * y; });
      std::vector<REAL> out2;
      q->get(nc2, out2);
      MC_CHECK(out2.size() == add[rank].size() * nc2, "size");
      for (size_t k = 0; k < add[rank].size(); k++)
        MC_CHECK(out2[k * nc2 + nc2 - 1] ==
                     POS[add[rank][k]][0] - 3.0 * POS[add[rank][k]][1],
                 "one component");
      // set: points held by the rank that added them
      auto set = want;
      for (size_t k = 0; k < set.size(); k++)
        set[k] = 1000.0 * (rank + 1) + k;
      q->set(ncomp, set);
      q->get(ncomp, out);
      MC_CHECK(out.size() == want.size(), "size");
      for (size_t k = 0; k < want.size(); k++)
        MC_CHECK(out[k] == (own[add[rank][k / ncomp]] == rank ? set[k]
                                                               : want[k]),
                 "value ", k, " after set");
      // a loop that changes every value
      particle_loop(
          q->particle_group,
          [=](auto Q) {
            for (int c = 0; c < ncomp; c++)
              Q.at(c) += 0.5;
          },
          Access::write(q->get_sym(ncomp)))
          ->execute();
      auto out3 = out;
      q->get(ncomp, out3);
      for (size_t k = 0; k < out.size(); k++)
        MC_CHECK(out3[k] == out[k] + 0.5, "value after a loop");
      mc_race_off(1);
      for (int p : add[rank])
        if (own[p] != rank)
          mc::nontrivial();
      mc_race_off(0);
      q->free();
    }
  });
}

// ---- parallel advection ---------------------------------------------------------
static void advect(int nr, int np, int bound) {
  if (bound)
    mc_set_sched_bound(bound);
  else
    mc_set_rank_order(mc::choose(2, "rank order"));
  const int nx = 3, ny = 2, ncell = nx * ny;
  std::vector<int> dest;
  for (int k = 0; k < nr * np; k++)
    dest.push_back(mc::choose(ncell, "cell"));
  const int steps = 1 + mc::choose(bound ? 1 : 3, "steps");
  Shared S;
  S.found.resize(nr);
  for (int k = 0; k < nr * np; k++) {
    auto p = base_part(2, k, 0);
    p.r["Z"] = {rval(k, 99)};
    p.r["P"] = {(dest[k] % nx) + 0.1 + 0.3 * (k % 3),
                (dest[k] / nx) + 0.7 - 0.3 * (k % 3)};
    S.all.push_back(p);
  }
  mc::ranks(nr, [&](int rank) {
    World w({nx, ny});
    auto s = wide_spec(2);
    auto g = std::make_shared<TG>(w.domain, s, w.target);
    std::vector<Part> mine, tmp;
    for (auto &p : S.all)
      if (p.i.at("ID")[0] / np == rank)
        mine.push_back(p);
    mc_race_off(1);
    int c = 0;
    for (auto &o : w.mesh->get_owned_cells()) {
      for (int k = 0; k < nr * np; k++)
        if (dest[k] == o[0] + nx * o[1]) {
          S.owner[k] = rank;
          S.cell[k] = c;
        }
      c++;
    }
    mc_race_off(0);
    g->add_particles_local(to_set(mine, s));
    parallel_advection_initialisation(g, steps);
    MC_CHECK(!g->contains_dat(Sym<REAL>("NESO_ORIG_POS")),
             "temporary property remains");
    gather(S, *g, rank, tmp);
    check_all(S, "advection", false);
    MPI_Barrier(MPI_COMM_WORLD);
    g->cell_move();
    gather(S, *g, rank, tmp);
    check_all(S, "advection and cell_move", true);
    MPI_Barrier(MPI_COMM_WORLD);
    if (rank == 0 && nr > 1)
      mc::nontrivial();
    g.reset();
  });
}
static void quad1() { quad(1, 3, 4, 0); }
static void quad2() { quad(2, mc_tier ? 3 : 2, 4, 0); }
static void quad3() { quad(3, mc_tier ? 2 : 1, 4, 0); }
static void quad2s() { quad(2, 1, 4, mc_tier ? 3 : 2); }
static void advect1() { advect(1, 2, 0); }
static void advect2() { advect(2, 2, 0); }
static void advect3() { advect(3, 1, 0); }
static void advect2s() { advect(2, 1, mc_tier ? 3 : 2); }

const mc_scenario mc_scenarios[] = {
    {"dofs_2x2", dofs2x2},       {"dofs_1x3", dofs1x3},
    {"dofs_3x1", dofs3x1},       {"overlay_1d", overlay1},
    {"overlay_2d", overlay2},    {"overlay_3d", overlay3},
    {"overlay_create", overlay_create}, {"boxes", boxes},
    {"claim_calls", claim_calls}, {"claims_1d", claims1},
    {"claims_2d", claims2},      {"claims_2d_two", claims2b},
    {"claims_3d", claims3},      {"points_1", quad1},
    {"points_2", quad2},         {"points_3", quad3},
    {"points_2_schedules", quad2s}, {"advection_1", advect1},
    {"advection_2", advect2},    {"advection_3", advect3},
    {"advection_2_schedules", advect2s}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
