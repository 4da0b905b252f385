// Geometric predicates, coordinate maps and small algebra agree with exact
// integer arithmetic for every input on small grids.
#include "common.hpp"
#include <neso_particles/external_interfaces/common/coordinate_mapping.hpp>
using namespace H;
namespace EC = NESO::Particles::ExternalCommon;
typedef long long ll;
typedef __int128 big;

static REAL SC = 1.0, OX = 0.0, OY = 0.0; // grid to coordinates (exact)
static void grid() {
  const int k = mc::choose(3, "scale");
  SC = k == 0 ? 1.0 : (k == 1 ? 0.125 : 1024.0);
  OX = k == 1 ? -0.25 : 0.0;
  OY = k == 1 ? 0.5 : (k == 2 ? -2048.0 : 0.0);
}
static REAL gx(REAL x) { return OX + SC * x; }
static REAL gy(REAL y) { return OY + SC * y; }
static bool near(REAL a, REAL b, REAL s) {
  return std::abs(a - b) <= 1e-11 * s + 1e-13;
}

// All pairs of segments with end points on an n x n grid.
static void segments(int n) {
  grid();
  const int a = mc::choose(n * n, "point a"), b = mc::choose(n * n, "point b");
  const ll ax = a % n, ay = a / n, bx = b % n, by = b / n;
  const REAL S = SC * n;
  long hits = 0;
  for (int c = 0; c < n * n; c++)
    for (int d = 0; d < n * n; d++) {
      const ll cx = c % n, cy = c / n, dx = d % n, dy = d / n;
      // a + s (b - a) = c + t (d - c)
      const ll ux = bx - ax, uy = by - ay, vx = dx - cx, vy = dy - cy;
      const ll det = ux * vy - uy * vx;
      REAL xi, yi, l0;
      for (int tol = 0; tol < 2; tol++) {
        const bool got = line_segment_intersection_2d(
            gx(ax), gy(ay), gx(bx), gy(by), gx(cx), gy(cy), gx(dx), gy(dy), xi,
            yi, l0, tol ? 1e-10 : 0.0);
        if (det == 0) {
          MC_CHECK(!got, "parallel segments ", ax, ay, bx, by, cx, cy, dx, dy);
          continue;
        }
        const ll sn = (cx - ax) * vy - (cy - ay) * vx; // s = sn / det
        const ll tn = (cx - ax) * uy - (cy - ay) * ux; // t = tn / det
        auto rel = [&](ll k) { // -1 outside, 0 end, 1 inside
          const ll m = det > 0 ? k : -k, w = det > 0 ? det : -det;
          return (m < 0 || m > w) ? -1 : ((m == 0 || m == w) ? 0 : 1);
        };
        const int rs = rel(sn), rt = rel(tn);
        if (rs < 0 || rt < 0)
          MC_CHECK(!got, "segments that do not meet ", ax, " ", ay, " ", bx,
                   " ", by, " ", cx, " ", cy, " ", dx, " ", dy);
        // without a tolerance rounding may lose a hit at an end point
        else if (tol || (rs > 0 && rt > 0))
          MC_CHECK(got, "segments that meet ", ax, " ", ay, " ", bx, " ", by,
                   " ", cx, " ", cy, " ", dx, " ", dy);
        if (got && rs >= 0 && rt >= 0) {
          const REAL s = (REAL)sn / (REAL)det;
          MC_CHECK(near(l0, s, 1), "proportion");
          MC_CHECK(near(xi, gx(ax + s * ux), S) && near(yi, gy(ay + s * uy), S),
                   "intersection point");
          hits++;
        }
      }
      // axis aligned specialisations
      if (cy == dy && !(ay == cy && by == cy)) {
        REAL xj, yj;
        const bool got = line_segment_intersection_2d_x_axis_aligned(
            gx(ax), gy(ay), gx(bx), gy(by), gx(cx), gy(cy), gx(dx), xj, yj,
            1e-10);
        // exact: crosses the line y = cy at a + s u with s = (cy - ay) / uy
        bool want = uy != 0 && (cy - ay) * (cy - by) <= 0;
        REAL x = 0;
        if (want) {
          const ll m = ax * uy + (cy - ay) * ux; // x = m / uy
          const ll lo = std::min(cx, dx) * uy, hi = std::max(cx, dx) * uy;
          want = uy > 0 ? (m >= lo && m <= hi) : (m <= lo && m >= hi);
          x = (REAL)m / (REAL)uy;
        }
        MC_CHECK(got == want, "x aligned segment");
        if (got)
          MC_CHECK(near(xj, gx(x), S) && yj == gy(cy), "x aligned point");
      }
      if (cx == dx && !(ax == cx && bx == cx)) {
        REAL xj, yj;
        const bool got = line_segment_intersection_2d_y_axis_aligned(
            gx(ax), gy(ay), gx(bx), gy(by), gx(cx), gy(cy), gy(dy), xj, yj,
            1e-10);
        bool want = ux != 0 && (cx - ax) * (cx - bx) <= 0;
        REAL y = 0;
        if (want) {
          const ll m = ay * ux + (cx - ax) * uy;
          const ll lo = std::min(cy, dy) * ux, hi = std::max(cy, dy) * ux;
          want = ux > 0 ? (m >= lo && m <= hi) : (m <= lo && m >= hi);
          y = (REAL)m / (REAL)ux;
        }
        MC_CHECK(got == want, "y aligned segment");
        if (got)
          MC_CHECK(near(yj, gy(y), S) && xj == gx(cx), "y aligned point");
      }
    }
  if (hits)
    mc::nontrivial();
  mc::outcome(hits);
  // orientation
  REAL ix, iy, jx, jy, kx, ky, lx, ly;
  consistent_line_orientation_2d(gx(ax), gy(ay), gx(bx), gy(by), &ix, &iy, &jx,
                                 &jy);
  consistent_line_orientation_2d(gx(bx), gy(by), gx(ax), gy(ay), &kx, &ky, &lx,
                                 &ly);
  MC_CHECK(ix == kx && iy == ky && jx == lx && jy == ly,
           "orientation depends on the order of the end points");
  MC_CHECK((ix == gx(ax) && iy == gy(ay) && jx == gx(bx) && jy == gy(by)) ||
               (ix == gx(bx) && iy == gy(by) && jx == gx(ax) && jy == gy(ay)),
           "orientation changed the segment");
  MC_CHECK(ix < jx || (ix == jx && iy <= jy), "orientation");
}
static void segs() { segments(mc_tier ? 8 : 6); }

// Segments against rectangles in a plane of constant z.
static void planes() {
  grid();
  const int n = 4;
  const int a = mc::choose(n * n * n, "point a");
  const ll A[3] = {a % n, a / n % n, a / n / n};
  long hits = 0;
  for (int b = 0; b < n * n * n; b++)
    for (int r = 0; r < n * n * n; r++) // opposite corners on a coarse grid
      for (int q = 0; q < 4; q++) {
        const ll B[3] = {b % n, b / n % n, b / n / n};
        const ll p0x = r % n, p0y = r / n % n, pz = r / n / n;
        const ll p1x = (p0x + 1 + q) % n, p2y = (p0y + 2 + 3 * q) % n;
        if (A[2] == pz && B[2] == pz)
          continue;
        REAL xi, yi, zi;
        const bool got = plane_intersection_3d_xy_plane_aligned(
            gx(A[0]), gy(A[1]), SC * A[2], gx(B[0]), gy(B[1]), SC * B[2],
            gx(p0x), gy(p0y), SC * pz, gx(p1x), gy(p2y), xi, yi, zi, 1e-10);
        const ll uz = B[2] - A[2];
        bool want = uz != 0 && (pz - A[2]) * (pz - B[2]) <= 0;
        REAL x = 0, y = 0;
        if (want) {
          auto in = [&](int k, ll lo, ll hi, REAL &o) {
            const ll m = A[k] * uz + (pz - A[2]) * (B[k] - A[k]);
            if (lo > hi)
              std::swap(lo, hi);
            o = (REAL)m / (REAL)uz;
            return uz > 0 ? (m >= lo * uz && m <= hi * uz)
                          : (m <= lo * uz && m >= hi * uz);
          };
          const bool i0 = in(0, p0x, p1x, x), i1 = in(1, p0y, p2y, y);
          want = i0 && i1;
        }
        MC_CHECK(got == want, "segment and rectangle");
        if (got) {
          MC_CHECK(near(xi, gx(x), SC * n) && near(yi, gy(y), SC * n) &&
                       zi == SC * pz,
                   "intersection point with a rectangle");
          hits++;
        }
      }
  if (hits)
    mc::nontrivial();
}

// ---- algebra ------------------------------------------------------------------
template <int N> static void inverse(const int *vals, int nv, int first) {
  REAL M[N * N], L[N * N];
  int e[N * N];
  int k0 = 0;
  for (; k0 < first; k0++)
    e[k0] = mc::choose(nv, "entry");
  ll total = 1;
  for (int k = first; k < N * N; k++)
    total *= nv;
  long reg = 0;
  for (ll t = 0; t < total; t++) {
    ll r = t;
    for (int k = first; k < N * N; k++) {
      e[k] = r % nv;
      r /= nv;
    }
    for (int k = 0; k < N * N; k++)
      M[k] = vals[e[k]];
    // exact determinant by fraction-free elimination
    ll D[N][N];
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++)
        D[i][j] = (ll)M[i * N + j];
    ll prev = 1;
    bool sing = false;
    for (int p = 0; p < N - 1 && !sing; p++) {
      int s = p;
      while (s < N && D[s][p] == 0)
        s++;
      if (s == N) {
        sing = true;
        break;
      }
      for (int j = 0; j < N; j++)
        std::swap(D[s][j], D[p][j]);
      for (int i = p + 1; i < N; i++)
        for (int j = p + 1; j < N; j++)
          D[i][j] = (D[i][j] * D[p][p] - D[i][p] * D[p][j]) / prev;
      prev = D[p][p];
    }
    if (sing || D[N - 1][N - 1] == 0)
      continue;
    reg++;
    naive_matrix_inverse<N>(M, L);
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        REAL s = 0;
        for (int k = 0; k < N; k++)
          s += L[i * N + k] * M[k * N + j];
        MC_CHECK(std::abs(s - (i == j)) < 1e-10, "inverse of a matrix, element ",
                 i, " ", j);
      }
  }
  if (reg)
    mc::nontrivial();
}
static void inv3() {
  static const int v[] = {0, 1, -1, 2, 3};
  inverse<3>(v, 5, 4);
}
static void inv4() {
  static const int v[] = {0, 1};
  inverse<4>(v, 2, 5);
}
static void inv4b() { // ternary entries
  static const int v[] = {0, 1, -1};
  if (mc_tier)
    inverse<4>(v, 3, 6);
  else { // the other entries form the identity
    static const int w[] = {1, 2};
    inverse<4>(w, 2, 5);
  }
}
static void vectors() {
  static const int v[] = {-2, 0, 1, 3};
  REAL a[3], b[3];
  INT ia[3], ib[3];
  for (int d = 0; d < 3; d++)
    ia[d] = a[d] = v[mc::choose(4, "a")];
  for (int t = 0; t < 64; t++) {
    int r = t;
    for (int d = 0; d < 3; d++) {
      ib[d] = b[d] = v[r % 4];
      r /= 4;
    }
    REAL c[3];
    INT ic[3];
    Kernel::cross_product(a[0], a[1], a[2], b[0], b[1], b[2], c, c + 1, c + 2);
    Kernel::cross_product(ia[0], ia[1], ia[2], ib[0], ib[1], ib[2], ic, ic + 1,
                          ic + 2);
    for (int d = 0; d < 3; d++) {
      const int e = (d + 1) % 3, f = (d + 2) % 3;
      MC_CHECK(c[d] == a[e] * b[f] - a[f] * b[e] && ic[d] == c[d],
               "cross product");
    }
    const REAL d2 = a[0] * b[0] + a[1] * b[1], d3 = d2 + a[2] * b[2];
    MC_CHECK(Kernel::dot_product_2d(a, b) == d2 &&
                 Kernel::dot_product_3d(a, b) == d3 &&
                 Kernel::dot_product<1>(a, b) == a[0] * b[0] &&
                 Kernel::dot_product<2>(a, b) == d2 &&
                 Kernel::dot_product<3>(a, b) == d3 &&
                 Kernel::dot_product<3>(ia, ib) == d3,
             "dot product");
    const INT lo = std::min(ia[0], ib[0]), hi = std::max(ia[0], ib[0]);
    MC_CHECK(Kernel::min(a[0], b[0]) == lo && Kernel::max(a[0], b[0]) == hi &&
                 Kernel::min(ia[0], ib[0]) == lo &&
                 Kernel::max(ia[0], ib[0]) == hi &&
                 Kernel::abs(a[0]) == std::abs(a[0]) &&
                 Kernel::abs(ia[0]) == std::abs(ia[0]) &&
                 Kernel::fma(a[0], b[0], a[1]) == a[0] * b[0] + a[1],
             "min, max, abs, fma");
  }
  for (int k = -16; k <= 16; k++) {
    const REAL x = k * 0.4375;
    REAL c;
    const REAL s = Kernel::sincos(x, &c);
    MC_CHECK(near(s, std::sin(x), 1) && near(c, std::cos(x), 1), "sincos");
    MC_CHECK(near(Kernel::sin(x), std::sin(x), 1) &&
                 near(Kernel::cos(x), std::cos(x), 1) &&
                 near(Kernel::tan(x), std::tan(x), 100) &&
                 near(Kernel::exp(x), std::exp(x), 2000) &&
                 Kernel::trunc(x) == std::trunc(x) &&
                 Kernel::round(x) == std::round(x) &&
                 near(Kernel::fmod(x, 3.0), std::fmod(x, 3.0), 1) &&
                 near(Kernel::atan2(x, 2.0), std::atan2(x, 2.0), 1),
             "functions");
    if (k > 0)
      MC_CHECK(near(Kernel::sqrt(x), std::sqrt(x), 1) &&
                   near(Kernel::rsqrt(x), 1 / std::sqrt(x), 1) &&
                   near(Kernel::log(x), std::log(x), 1) &&
                   near(Kernel::log2(x), std::log2(x), 1) &&
                   near(Kernel::log10(x), std::log10(x), 1) &&
                   near(Kernel::pow(x, 2.5), std::pow(x, 2.5), 100) &&
                   near(Kernel::tgamma(x), std::tgamma(x), 1000),
               "functions");
  }
  mc::nontrivial();
}

// ---- triangles and quadrilaterals ----------------------------------------------
static ll cross2(ll ax, ll ay, ll bx, ll by) { return ax * by - ay * bx; }
static void triangles(int n) {
  grid();
  const int a = mc::choose(n * n, "vertex"), b = mc::choose(n * n, "vertex");
  const ll x1 = a % n, y1 = a / n, x2 = b % n, y2 = b / n;
  long seen = 0;
  for (int c = 0; c < n * n; c++) {
    const ll x3 = c % n, y3 = c / n;
    const ll D = cross2(x2 - x1, y2 - y1, x3 - x1, y3 - y1);
    if (D == 0)
      continue;
    seen++;
    for (int px = -2; px < 2 * n + 2; px++)
      for (int py = -2; py < 2 * n + 2; py++) { // half grid points
        const REAL x = px * 0.5, y = py * 0.5;
        // twice the coordinates are integers
        auto bary = [&](ll ux, ll uy, ll vx, ll vy) {
          return (REAL)cross2(2 * ux - px, 2 * uy - py, 2 * vx - px,
                              2 * vy - py) /
                 (4.0 * D);
        };
        const REAL w1 = bary(x2, y2, x3, y3), w2 = bary(x3, y3, x1, y1),
                   w3 = bary(x1, y1, x2, y2);
        REAL l1, l2, l3, rx, ry;
        EC::triangle_cartesian_to_barycentric(gx(x1), gy(y1), gx(x2), gy(y2),
                                              gx(x3), gy(y3), gx(x), gy(y), &l1,
                                              &l2, &l3);
        MC_CHECK(std::abs(l1 - w1) < 1e-9 && std::abs(l2 - w2) < 1e-9 &&
                     std::abs(l3 - w3) < 1e-9,
                 "barycentric coordinates");
        EC::triangle_barycentric_to_cartesian(gx(x1), gy(y1), gx(x2), gy(y2),
                                              gx(x3), gy(y3), l1, l2, l3, &rx,
                                              &ry);
        MC_CHECK(std::abs(rx - gx(x)) < 1e-9 * SC &&
                     std::abs(ry - gy(y)) < 1e-9 * SC,
                 "round trip of barycentric coordinates");
      }
  }
  if (seen)
    mc::nontrivial();
}
static void tris() { triangles(mc_tier ? 8 : 6); }

static void quads(int n, int div) {
  grid();
  const int a = mc::choose(n * n, "vertex"), b = mc::choose(n * n, "vertex");
  long seen = 0;
  for (int c = 0; c < n * n; c++)
    for (int d = 0; d < n * n; d++) {
      const int v[4] = {a, b, c, d};
      ll x[4], y[4];
      for (int k = 0; k < 4; k++) {
        x[k] = v[k] % n;
        y[k] = v[k] / n;
      }
      int pos = 0, neg = 0;
      for (int k = 0; k < 4; k++) {
        const int l = (k + 1) % 4, m = (k + 2) % 4;
        const ll z = cross2(x[l] - x[k], y[l] - y[k], x[m] - x[l], y[m] - y[l]);
        pos += z > 0;
        neg += z < 0;
      }
      if (pos != 4 && neg != 4)
        continue; // not strictly convex
      // four turns of one sign and a simple polygon (no quadrilateral with 4
      // equal turns self intersects)
      seen++;
      for (int i = 0; i <= div; i++)
        for (int j = 0; j <= div; j++) {
          const REAL e0 = -1.0 + 2.0 * i / div, e1 = -1.0 + 2.0 * j / div;
          // exact in multiples of 1 / (div * div)
          const ll w[4] = {(ll)(div - i) * (div - j), (ll)i * (div - j),
                           (ll)i * j, (ll)(div - i) * j};
          ll sx = 0, sy = 0;
          for (int k = 0; k < 4; k++) {
            sx += w[k] * x[k];
            sy += w[k] * y[k];
          }
          const REAL px = (REAL)sx / (div * div), py = (REAL)sy / (div * div);
          REAL cx, cy, g0, g1, l0, l1, l2, l3;
          EC::quad_collapsed_to_cartesian(
              gx(x[0]), gy(y[0]), gx(x[1]), gy(y[1]), gx(x[2]), gy(y[2]),
              gx(x[3]), gy(y[3]), e0, e1, &cx, &cy);
          MC_CHECK(near(cx, gx(px), SC * n) && near(cy, gy(py), SC * n),
                   "collapsed to cartesian");
          EC::quad_cartesian_to_collapsed(
              gx(x[0]), gy(y[0]), gx(x[1]), gy(y[1]), gx(x[2]), gy(y[2]),
              gx(x[3]), gy(y[3]), gx(px), gy(py), &g0, &g1);
          MC_CHECK(std::abs(g0 - e0) < 1e-6 && std::abs(g1 - e1) < 1e-6,
                   "cartesian to collapsed gave ", g0, " ", g1, " not ", e0,
                   " ", e1, " for ", x[0], y[0], " ", x[1], y[1], " ", x[2],
                   y[2], " ", x[3], y[3]);
          EC::quad_cartesian_to_barycentric(
              gx(x[0]), gy(y[0]), gx(x[1]), gy(y[1]), gx(x[2]), gy(y[2]),
              gx(x[3]), gy(y[3]), gx(px), gy(py), &l0, &l1, &l2, &l3);
          const REAL l[4] = {l0, l1, l2, l3};
          for (int k = 0; k < 4; k++)
            MC_CHECK(std::abs(l[k] - (REAL)w[k] / (div * div)) < 1e-6 &&
                         l[k] >= 0 && l[k] <= 1,
                     "weight ", k, " of a quadrilateral");
        }
    }
  if (seen)
    mc::nontrivial();
  mc::outcome(seen);
}
static void quads_() { quads(mc_tier ? 7 : 5, 8); }

static void quad_weights() {
  // weights from reference coordinates, also outside the element (clamped)
  for (int i = -12; i <= 12; i++)
    for (int j = -12; j <= 12; j++) {
      const REAL e0 = i / 8.0, e1 = j / 8.0;
      REAL l[4];
      EC::quad_collapsed_to_barycentric(e0, e1, l, l + 1, l + 2, l + 3);
      const REAL c0 = std::max(-1.0, std::min(1.0, e0)),
                 c1 = std::max(-1.0, std::min(1.0, e1));
      const REAL w[4] = {(1 - c0) * (1 - c1) / 4, (1 + c0) * (1 - c1) / 4,
                         (1 + c0) * (1 + c1) / 4, (1 - c0) * (1 + c1) / 4};
      for (int k = 0; k < 4; k++)
        MC_CHECK(near(l[k], w[k], 1), "weight ", k);
    }
  mc::nontrivial();
}

static void torus() {
  const REAL R = 0.5 * (1 + mc::choose(6, "R"));
  for (int i = -6; i <= 6; i++)
    for (int j = -6; j <= 6; j++)
      for (int k = -4; k <= 4; k++) {
        const REAL x = i * 0.75, y = j * 0.75, z = k * 0.5;
        if (i == 0 && j == 0)
          continue; // on the axis
        REAL r, phi, theta, a, b, c;
        EC::cartesian_to_torus_cylindrical(R, x, y, z, &r, &phi, &theta);
        const REAL rho = std::hypot(x, y);
        MC_CHECK(std::abs(r - std::hypot(rho - R, z)) < 1e-9, "radius");
        MC_CHECK(std::abs(std::cos(phi) - x / rho) < 1e-9 &&
                     std::abs(std::sin(phi) - y / rho) < 1e-9,
                 "toroidal angle");
        if (r > 1e-6)
          MC_CHECK(std::abs(r * std::cos(theta) - (rho - R)) < 1e-9 &&
                       std::abs(r * std::sin(theta) - z) < 1e-9,
                   "poloidal angle");
        EC::torus_cylindrical_to_cartesian(R, r, phi, theta, &a, &b, &c);
        MC_CHECK(std::abs(a - x) < 1e-9 && std::abs(b - y) < 1e-9 &&
                     std::abs(c - z) < 1e-9,
                 "round trip of torus coordinates");
      }
  mc::nontrivial();
}

// ---- atomic helpers under every interleaving --------------------------------------
template <typename T> static void atomics(int nwi) {
  mc_set_sched_bound(mc_tier ? 4 : 3);
  const int op = mc::choose(7, "operation");
  const T V[4] = {(T)-3, (T)0, (T)2, (T)5};
  std::vector<T> v(nwi);
  for (auto &x : v)
    x = V[mc::choose(4, "value")];
  const T init = V[mc::choose(3, "initial")];
  mc::ranks(1, [&](int) {
    auto target = std::make_shared<SYCLTarget>(0, MPI_COMM_WORLD);
    {
      BufferDevice<T> x(target, std::vector<T>{init});
      BufferDevice<T> o(target, std::vector<T>(nwi, (T)99));
      BufferDevice<T> in(target, v);
      T *px = x.ptr, *po = o.ptr, *pi = in.ptr;
      target->queue
          .parallel_for(sycl::range<1>(nwi),
                        [=](auto i) {
                          const int k = (int)i;
                          switch (op) {
                          case 0:
                            po[k] = atomic_fetch_add(px, pi[k]);
                            break;
                          case 1:
                            po[k] = atomic_fetch_min(px, pi[k]);
                            break;
                          case 2:
                            po[k] = atomic_fetch_max(px, pi[k]);
                            break;
                          case 3:
                            po[k] = atomic_fetch_min_cas_strong(px, pi[k]);
                            break;
                          case 4:
                            po[k] = atomic_fetch_max_cas_strong(px, pi[k]);
                            break;
                          case 5:
                            Kernel::atomic_reduce(Kernel::plus<T>{}, px, pi[k]);
                            break;
                          default:
                            if (k & 1)
                              Kernel::atomic_reduce(Kernel::minimum<T>{}, px,
                                                    pi[k]);
                            else
                              Kernel::atomic_reduce(Kernel::minimum<T>{}, px,
                                                    pi[k]);
                          }
                        })
          .wait_and_throw();
      const T got = x.get().at(0);
      auto ret = o.get();
      // some order of the calls explains the result and what they returned
      std::vector<int> p(nwi);
      std::iota(p.begin(), p.end(), 0);
      bool ok = false;
      do {
        T cur = init;
        bool good = true;
        for (int k : p) {
          if (op < 5)
            good = good && ret[k] == cur;
          const int kind = op == 0 || op == 5 ? 0 : (op == 1 || op == 3 ||
                                                     op == 6) ? 1 : 2;
          cur = kind == 0 ? cur + v[k]
                          : (kind == 1 ? std::min(cur, v[k])
                                       : std::max(cur, v[k]));
        }
        ok = ok || (good && cur == got);
      } while (std::next_permutation(p.begin(), p.end()));
      MC_CHECK(ok, "no order of the atomic calls explains the result ", got);
      mc::nontrivial();
    }
    target->free();
  });
}
static void atomics_real() { atomics<REAL>(3); }
static void atomics_int() { atomics<INT>(mc_tier ? 4 : 3); }

const mc_scenario mc_scenarios[] = {
    {"segments", segs},       {"planes", planes},     {"inverse_3", inv3},
    {"inverse_4", inv4},      {"inverse_4_more", inv4b}, {"vectors", vectors},
    {"triangles", tris},      {"quads", quads_},      {"quad_weights", quad_weights},
    {"torus", torus},         {"atomics_real", atomics_real},
    {"atomics_int", atomics_int}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
