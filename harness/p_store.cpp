// Storage types return what was last stored in them, whatever the sequence of
// resizes, writes and reads and whichever side wrote.
#include "common.hpp"
#include <neso_particles/algorithms/unseen_value_extractor.hpp>
using namespace H;

template <typename F> static bool refused(F f) {
  mc_expect_abort(1);
  const int a0 = mc_abort_count();
  try {
    f();
  } catch (mc::Aborted &) {
  }
  mc_expect_abort(0);
  return mc_abort_count() > a0;
}
template <typename T> static T gen(int k) { return (T)((k * 13 + 5) % 101); }
// A value that may be unspecified.
template <typename T> using Vals = std::vector<std::optional<T>>;
template <typename T, typename V>
static void same(const Vals<T> &m, const V &v, const char *what) {
  MC_CHECK(v.size() == m.size(), what, " size ", v.size(), " not ", m.size());
  for (size_t k = 0; k < m.size(); k++)
    if (m[k])
      MC_CHECK(v[k] == *m[k], what, " element ", k, " of ", m.size(), " is ",
               +v[k], " not ", +*m[k]);
}

// ---- buffers ---------------------------------------------------------------
static const int SIZES[] = {1, 2, 3, 5, 8};
template <template <typename> typename B, typename T, bool HOSTSIDE, bool DEV>
static void buffer(int depth) {
  const int s0 = SIZES[mc::choose(3, "size")];
  const int ctor = mc::choose(3, "constructor");
  const int aligned = mc::choose(2, "aligned");
  mc_set_poison(0x5a);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    int k = 0;
    Vals<T> m(s0);
    std::unique_ptr<B<T>> b;
    if (ctor == 0)
      b = aligned ? std::make_unique<B<T>>(w.target, (size_t)s0, (size_t)64)
                  : std::make_unique<B<T>>(w.target, (size_t)s0);
    else {
      std::vector<T> v;
      for (int e = 0; e < s0; e++)
        v.push_back(gen<T>(k++));
      b = aligned ? std::make_unique<B<T>>(w.target, v, (size_t)64)
                  : std::make_unique<B<T>>(w.target, v);
      for (int e = 0; e < s0; e++)
        m[e] = v[e];
      if (ctor == 2)
        v.assign(s0, 0); // a copy was taken
    }
    if (aligned)
      MC_CHECK(((size_t)b->ptr) % 64 == 0, "alignment");
    auto resize = [&](bool keep, int n, std::optional<REAL> f) {
      const size_t old = m.size();
      const int r = keep ? b->realloc(n, f) : b->realloc_no_copy(n, f);
      MC_CHECK((size_t)r == b->size, "returned size ", r, " of ", b->size);
      MC_CHECK(b->size >= (size_t)n, "size ", b->size, " after asking for ", n);
      if (n && f)
        MC_CHECK((REAL)b->size <= std::max((REAL)n, *f * n), "size ", b->size,
                 " for ", n, " with factor ", *f);
      MC_CHECK(b->size <= std::max(old, (size_t)n), "grew beyond the request");
      if (keep)
        m.resize(b->size);
      else if (b->size != old)
        m.assign(b->size, {});
    };
    for (int d = 0; d < depth; d++) {
      const int op = mc::choose(9, "op");
      mc::outcome(op);
      switch (op) {
      case 0:
      case 1: { // set everything or a prefix
        std::vector<T> v;
        const int n = op ? (int)b->size / 2 : (int)b->size;
        for (int e = 0; e < n; e++)
          v.push_back(gen<T>(k++));
        if (d % 2) {
          b->set(v);
        } else {
          b->set_async(v).wait_and_throw();
        }
        for (int e = 0; e < n; e++)
          m[e] = v[e];
        break;
      }
      case 2:
        resize(true, SIZES[mc::choose(5, "n")], std::nullopt);
        break;
      case 3:
        resize(true, SIZES[mc::choose(5, "n")], 1.0 + mc::choose(2, "f"));
        break;
      case 4:
        resize(false, SIZES[mc::choose(5, "n")], std::nullopt);
        break;
      case 5:
        resize(false, SIZES[mc::choose(5, "n")], 1.0 + mc::choose(2, "f"));
        break;
      case 6: { // written by the device
        if (!DEV)
          mc_discard();
        auto p = b->ptr;
        const int k0 = k;
        w.target->queue
            .parallel_for(sycl::range<1>(b->size),
                          [=](auto i) { p[i] = gen<T>(k0 + (int)i); })
            .wait_and_throw();
        for (auto &e : m)
          e = gen<T>(k++);
        break;
      }
      case 7: // written by the host
        if (!HOSTSIDE)
          mc_discard();
        for (size_t e = 0; e < m.size(); e++) {
          b->ptr[e] = gen<T>(k);
          m[e] = gen<T>(k++);
        }
        break;
      case 8: {
        const size_t s = b->size;
        b->realloc(0);
        b->realloc_no_copy(0);
        MC_CHECK(b->size == s, "size changed");
        MC_CHECK(refused([&] { b->set(std::vector<T>(s + 1)); }),
                 "too many values accepted");
        std::vector<T> o(s + 1);
        MC_CHECK(refused([&] { b->get(o); }), "wrong size accepted");
        break;
      }
      }
      MC_CHECK(b->size == m.size(), "size ", b->size);
      MC_CHECK(b->size_bytes() == m.size() * sizeof(T), "bytes");
      same(m, b->get(), "buffer");
      std::vector<T> o(b->size);
      b->get_async(o).wait_and_throw();
      same(m, o, "buffer async");
      if (op > 1)
        mc::nontrivial();
    }
    // copies between buffers
    std::vector<T> c(b->size, 7);
    BufferDevice<T> other(w.target, c);
    buffer_memcpy(other, *b).wait_and_throw();
    same(m, other.get(), "copy");
    BufferDevice<T> longer(w.target, b->size + 1);
    MC_CHECK(refused([&] { (void)buffer_memcpy(longer, *b); }),
             "copy of another size accepted");
  });
}
static int bd() { return mc_tier ? 4 : 3; }
static void buf_device() { buffer<BufferDevice, INT, false, true>(bd()); }
static void buf_device_c() { buffer<BufferDevice, char, false, true>(bd() - 1); }
static void buf_host() { buffer<BufferHost, REAL, true, true>(bd() - 1); }
static void buf_shared() { buffer<BufferShared, int, true, true>(bd() - 1); }

static void buf_pair() {
  const int s0 = SIZES[mc::choose(3, "size")];
  const int ctor = mc::choose(2, "constructor");
  mc::ranks(1, [&](int) {
    World w({1, 1});
    int k = 0;
    Vals<INT> h(s0), d(s0);
    std::unique_ptr<BufferDeviceHost<INT>> b;
    if (ctor) {
      std::vector<INT> v;
      for (int e = 0; e < s0; e++)
        v.push_back(gen<INT>(k++));
      b = std::make_unique<BufferDeviceHost<INT>>(w.target, v);
      for (int e = 0; e < s0; e++)
        h[e] = d[e] = v[e];
    } else
      b = std::make_unique<BufferDeviceHost<INT>>(w.target, (size_t)s0);
    for (int st = 0; st < (mc_tier ? 4 : 3); st++) {
      const int op = mc::choose(8, "op");
      mc::outcome(op);
      const size_t n = b->size;
      switch (op) {
      case 0:
        for (size_t e = 0; e < n; e++) {
          b->h_buffer.ptr[e] = gen<INT>(k);
          h[e] = gen<INT>(k++);
        }
        break;
      case 1: {
        auto p = b->d_buffer.ptr;
        const int k0 = k;
        w.target->queue
            .parallel_for(sycl::range<1>(n),
                          [=](auto i) { p[i] = gen<INT>(k0 + (int)i); })
            .wait_and_throw();
        for (size_t e = 0; e < n; e++)
          d[e] = gen<INT>(k++);
        break;
      }
      case 2:
        b->host_to_device();
        std::copy(h.begin(), h.begin() + n, d.begin());
        break;
      case 3:
        b->device_to_host();
        std::copy(d.begin(), d.begin() + n, h.begin());
        break;
      case 4: {
        const size_t p = mc::choose((int)n + 1, "elements");
        b->host_to_device(p);
        std::copy(h.begin(), h.begin() + p, d.begin());
        break;
      }
      case 5: {
        const size_t p = mc::choose((int)n + 1, "elements");
        b->device_to_host(p);
        std::copy(d.begin(), d.begin() + p, h.begin());
        break;
      }
      case 6:
        b->async_host_to_device().wait_and_throw();
        std::copy(h.begin(), h.begin() + n, d.begin());
        b->async_device_to_host().wait_and_throw();
        break;
      case 7: {
        const int q = SIZES[mc::choose(5, "n")];
        const size_t od = b->d_buffer.size, oh = b->h_buffer.size;
        const int r = b->realloc_no_copy(q);
        MC_CHECK(r >= q && b->size >= (size_t)q &&
                     b->d_buffer.size >= b->size && b->h_buffer.size >= b->size,
                 "size ", r, " for ", q);
        if (b->d_buffer.size != od)
          d.assign(b->d_buffer.size, {});
        if (b->h_buffer.size != oh)
          h.assign(b->h_buffer.size, {});
        break;
      }
      }
      same(d, b->d_buffer.get(), "device side");
      same(h, b->h_buffer.get(), "host side");
      MC_CHECK(b->size_bytes() == b->size * sizeof(INT), "bytes");
      if (op > 1)
        mc::nontrivial();
    }
  });
}

// ---- cell wise storage -----------------------------------------------------
template <typename T> static void cell_dat(int depth) {
  const int NC = 1 + mc::choose(2, "cells"), NL = 1 + mc::choose(2, "columns");
  mc_set_poison(0x6b);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    CellDat<T> cd(w.target, NC, NL);
    std::vector<std::vector<Vals<T>>> m(NC, std::vector<Vals<T>>(NL));
    int k = 0;
    auto rows = [&](int c) { return (int)m[c][0].size(); };
    auto row = [&](int c, int n) {
      for (auto &l : m[c])
        l.resize(n);
    };
    auto check = [&] {
      int lo = 1000, hi = 0;
      for (int c = 0; c < NC; c++) {
        lo = std::min(lo, rows(c));
        hi = std::max(hi, rows(c));
        MC_CHECK(cd.nrow.at(c) == rows(c), "rows ", cd.nrow.at(c));
        auto v = cd.get_cell(c);
        MC_CHECK(v->nrow == rows(c) && v->ncol == NL, "shape of cell");
        CellDataT<T> big(w.target, rows(c) + 1, NL + 1);
        EventStack es;
        cd.get_cell_async(c, big, es);
        es.wait();
        for (int l = 0; l < NL; l++)
          for (int r = 0; r < rows(c); r++)
            if (m[c][l][r]) {
              const T x = *m[c][l][r];
              MC_CHECK(v->at(r, l) == x, "cell ", c, " row ", r, " column ", l,
                       " is ", v->at(r, l), " not ", x);
              MC_CHECK((*v)[l][r] == x && v->get_column_ptr(l)[r] == x,
                       "column access");
              MC_CHECK(cd.get_value(c, r, l) == x, "value");
              MC_CHECK(big.at(r, l) == x, "asynchronous copy");
            }
      }
      MC_CHECK(cd.get_nrow_max() == hi, "nrow max ", cd.get_nrow_max(), " not ",
               hi);
      MC_CHECK(cd.get_nrow_min() == lo, "nrow min ", cd.get_nrow_min(), " not ",
               lo);
      MC_CHECK(cd.row_size() == NL * sizeof(T), "row size");
      // the device sees the same through the root pointer
      if (hi) {
        auto p = cd.device_ptr();
        BufferDevice<T> o(w.target, std::vector<T>(NC * NL * hi, 0));
        auto q = o.ptr;
        BufferDevice<INT> nr(w.target, cd.nrow);
        auto n = nr.ptr;
        const int nl = NL, h = hi;
        w.target->queue
            .parallel_for(sycl::range<1>(NC),
                          [=](auto c) {
                            for (int l = 0; l < nl; l++)
                              for (INT r = 0; r < n[c]; r++)
                                q[(c * nl + l) * h + r] = p[c][l][r];
                          })
            .wait_and_throw();
        auto v = o.get();
        for (int c = 0; c < NC; c++)
          for (int l = 0; l < NL; l++)
            for (int r = 0; r < rows(c); r++)
              if (m[c][l][r])
                MC_CHECK(v[(c * NL + l) * hi + r] == *m[c][l][r],
                         "device value, cell ", c, " row ", r);
      }
    };
    check();
    for (int d = 0; d < depth; d++) {
      const int op = mc::choose(7, "op");
      mc::outcome(op);
      const int c = mc::choose(NC, "cell");
      switch (op) {
      case 0:
      case 1: { // resize one or all cells
        const int n = mc::choose(6, "rows");
        row(c, n);
        cd.set_nrow(c, n);
        if (op && NC > 1) {
          const int e = 1 - c;
          row(e, 2 * n + 1);
          cd.set_nrow(e, 2 * n + 1);
        }
        cd.wait_set_nrow();
        break;
      }
      case 2: // one value
        if (!rows(c))
          mc_discard();
        {
          const int r = mc::choose(2, "row") ? rows(c) - 1 : 0, l = NL - 1;
          m[c][l][r] = gen<T>(k);
          cd.set_value(c, r, l, gen<T>(k++));
        }
        break;
      case 3:
      case 4: { // one cell, from a possibly larger source
        const int extra = op == 3 ? 0 : 1;
        auto v =
            std::make_shared<CellDataT<T>>(w.target, rows(c) + extra, NL + extra);
        for (int l = 0; l < NL + extra; l++)
          for (int r = 0; r < rows(c) + extra; r++) {
            v->at(r, l) = gen<T>(k);
            if (l < NL && r < rows(c))
              m[c][l][r] = gen<T>(k);
            k++;
          }
        if (d % 2) {
          cd.set_cell(c, v);
        } else {
          EventStack es;
          cd.set_cell_async(c, *v, es);
          es.wait();
        }
        break;
      }
      case 5: { // by the device
        auto p = cd.device_ptr();
        const int n = rows(c), nl = NL, k0 = k;
        w.target->queue
            .single_task([=]() {
              for (int l = 0; l < nl; l++)
                for (int r = 0; r < n; r++)
                  p[c][l][r] = gen<T>(k0 + l * n + r);
            })
            .wait_and_throw();
        for (int l = 0; l < NL; l++)
          for (int r = 0; r < n; r++)
            m[c][l][r] = gen<T>(k++);
        break;
      }
      case 6: { // sources that are too small
        auto a = std::make_shared<CellDataT<T>>(w.target, rows(c), NL - 1);
        MC_CHECK(refused([&] { cd.set_cell(c, a); }), "missing column accepted");
        if (rows(c)) {
          auto b = std::make_shared<CellDataT<T>>(w.target, rows(c) - 1, NL);
          MC_CHECK(refused([&] { cd.set_cell(c, b); }), "missing row accepted");
          EventStack es;
          MC_CHECK(refused([&] { cd.get_cell_async(c, *b, es); }),
                   "short destination accepted");
        }
        // cells only ever lose rows this way
        std::vector<INT> n;
        for (int e = 0; e < NC; e++) {
          n.push_back(rows(e) - (e == c && rows(e)));
          row(e, (int)n[e]);
        }
        cd.reduce_nrow(n.data());
        break;
      }
      }
      check();
      if (op < 2)
        mc::nontrivial();
    }
  });
}
static void cd_int() { cell_dat<INT>(mc_tier ? 4 : 3); }
static void cd_real() { cell_dat<REAL>(mc_tier ? 4 : 3); }

template <typename T> static void cell_dat_const(int depth) {
  const int NC = 1 + mc::choose(2, "cells");
  const int NR = mc::choose(3, "rows"), NL = mc::choose(3, "columns");
  mc_set_poison(0x6b);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    auto cd = std::make_shared<CellDatConst<T>>(w.target, NC, NR, NL);
    std::vector<T> m(NC * NR * NL, 0);
    auto at = [&](int c, int r, int l) -> T & {
      return m[(c * NL + l) * NR + r];
    };
    int k = 0;
    auto check = [&] {
      auto all = cd->get_all_cells();
      MC_CHECK((int)all.size() == NC, "cells");
      for (int c = 0; c < NC; c++) {
        auto v = cd->get_cell(c);
        MC_CHECK(v->nrow == NR && v->ncol == NL && all[c]->nrow == NR &&
                     all[c]->ncol == NL,
                 "shape");
        for (int r = 0; r < NR; r++)
          for (int l = 0; l < NL; l++) {
            const T x = at(c, r, l);
            MC_CHECK(v->at(r, l) == x, "cell ", c, " row ", r, " column ", l,
                     " is ", v->at(r, l), " not ", x);
            MC_CHECK(all[c]->at(r, l) == x, "all cells");
            MC_CHECK(cd->get_value(c, r, l) == x, "value");
          }
      }
      auto p = cd->device_ptr();
      BufferDevice<T> o(w.target, m.size() + 1);
      auto q = o.ptr;
      const int n = (int)m.size();
      w.target->queue
          .single_task([=]() {
            for (int e = 0; e < n; e++)
              q[e] = p[e];
            q[n] = 0;
          })
          .wait_and_throw();
      auto v = o.get();
      for (int c = 0; c < NC; c++)
        for (int r = 0; r < NR; r++)
          for (int l = 0; l < NL; l++)
            MC_CHECK(v[cd->idx(c, r, l)] == at(c, r, l), "device layout");
    };
    check();
    for (int d = 0; d < depth; d++) {
      const int op = mc::choose(6, "op");
      mc::outcome(op);
      const int c = mc::choose(NC, "cell");
      switch (op) {
      case 0:
        cd->fill(gen<T>(k));
        m.assign(m.size(), gen<T>(k++));
        break;
      case 1:
        if (!NR || !NL)
          mc_discard();
        at(c, NR - 1, NL - 1) = gen<T>(k);
        cd->set_value(c, NR - 1, NL - 1, gen<T>(k++));
        break;
      case 2:
      case 3:
      case 4: { // exact, more rows, more columns
        auto v = std::make_shared<CellDataT<T>>(w.target, NR + (op == 3),
                                                NL + (op == 4));
        for (int r = 0; r < v->nrow; r++)
          for (int l = 0; l < v->ncol; l++) {
            v->at(r, l) = gen<T>(k);
            if (r < NR && l < NL)
              at(c, r, l) = gen<T>(k);
            k++;
          }
        cd->set_cell(c, v);
        break;
      }
      case 5: {
        std::vector<CellData<T>> vs;
        for (int e = 0; e < NC; e++) {
          vs.push_back(std::make_shared<CellDataT<T>>(w.target, NR, NL));
          for (int r = 0; r < NR; r++)
            for (int l = 0; l < NL; l++)
              at(e, r, l) = vs[e]->at(r, l) = gen<T>(k++);
        }
        cd->set_all_cells(vs);
        break;
      }
      }
      check();
    }
    if (NC > 1 && NR > 1 && NL > 1)
      mc::nontrivial();
  });
}
static void cdc_int() { cell_dat_const<INT>(mc_tier ? 4 : 3); }
static void cdc_real() { cell_dat_const<REAL>(mc_tier ? 3 : 2); }

// ---- keyed storage ---------------------------------------------------------
struct Val {
  REAL a;
  int b;
};
static const int KEYS[] = {-9, -8, -1, 0, 7, 8, 100};
template <typename K, INT WIDTH> static void tree(int depth) {
  mc::ranks(1, [&](int) {
    World w({1, 1});
    BlockedBinaryTree<K, Val, WIDTH> t(w.target);
    std::map<K, int> m;
    for (int d = 0; d <= depth; d++) {
      std::vector<K> q;
      for (K x = -20; x <= 20; x++)
        q.push_back(x);
      for (K x = 95; x < 110; x++)
        q.push_back(x);
      const int n = (int)q.size();
      if (t.root == nullptr)
        MC_CHECK(m.empty(), "no root");
      else {
        BufferDevice<K> dq(w.target, q);
        BufferDevice<int> r(w.target, std::vector<int>(n, 0));
        auto root = t.root;
        auto kq = dq.ptr;
        auto kr = r.ptr;
        w.target->queue
            .parallel_for(sycl::range<1>(n),
                          [=](auto i) {
                            Val v{-1, -1};
                            const Val *p = nullptr;
                            const bool a = root->get(kq[i], &v);
                            const bool b = root->get(kq[i], &p);
                            if (a != b)
                              kr[i] = -2;
                            else if (!a)
                              kr[i] = -1;
                            else
                              kr[i] = (v.a == p->a && v.b == p->b &&
                                       v.a == v.b + 0.5)
                                          ? v.b
                                          : -3;
                          })
            .wait_and_throw();
        auto v = r.get();
        for (int e = 0; e < n; e++) {
          const int want = m.count(q[e]) ? m[q[e]] : -1;
          MC_CHECK(v[e] == want, "key ", q[e], " on the device is ", v[e],
                   " not ", want);
        }
      }
      for (int e : {-20, -9, -8, -7, -1, 0, 1, 7, 8, 9, 100, 101}) {
        Val v{-7, -7};
        const bool has = t.host_get((K)e, &v);
        MC_CHECK(has == (m.count((K)e) > 0), "key ", e, has ? " present" : " absent");
        if (has)
          MC_CHECK(v.b == m[(K)e] && v.a == v.b + 0.5, "key ", e, " is ", v.b,
                   " not ", m[(K)e]);
      }
      if (d == depth)
        break;
      const K x = (K)KEYS[mc::choose(7, "key")];
      mc::outcome(x);
      if (m.count(x))
        mc::nontrivial();
      const int y = 10 * d + (int)(x & 7);
      t.add(x, Val{y + 0.5, y});
      m[x] = y;
    }
    if (m.size() > 2)
      mc::nontrivial();
  });
}
static void tree2() { tree<INT, 2>(mc_tier ? 5 : 4); }
static void tree8() { tree<int, 8>(mc_tier ? 5 : 4); }
static void tree1() { tree<INT, 1>(mc_tier ? 5 : 4); }

static void table() {
  const int size = mc::choose(4, "size");
  mc::ranks(1, [&](int) {
    World w({1, 1});
    LookupTable<int, Val> t(w.target, size);
    std::map<int, int> m;
    for (int d = 0; d < (mc_tier ? 5 : 4); d++) {
      const int x = mc::choose(size + 2, "key") - 1;
      mc::outcome(x);
      if (x < 0 || x >= size)
        MC_CHECK(refused([&] { t.add(x, Val{0, 0}); }), "key ", x,
                 " accepted by a table of ", size);
      else {
        if (m.count(x))
          mc::nontrivial();
        t.add(x, Val{d + 0.5, d});
        m[x] = d;
      }
      BufferDevice<int> r(w.target, std::vector<int>(size + 4, 0));
      auto root = t.root;
      auto kr = r.ptr;
      w.target->queue
          .parallel_for(sycl::range<1>(size + 4),
                        [=](auto i) {
                          const int key = (int)i - 2;
                          Val v{-1, -1};
                          const Val *p = nullptr;
                          const bool a = root->get(key, &v);
                          const bool b = root->get(key, &p);
                          kr[i] = a != b ? -2
                                  : !a   ? -1
                                         : (v.a == p->a && v.b == p->b &&
                                          v.a == v.b + 0.5)
                                               ? v.b
                                               : -3;
                        })
          .wait_and_throw();
      auto v = r.get();
      for (int key = -2; key < size + 2; key++) {
        const int want = m.count(key) ? m[key] : -1;
        MC_CHECK(v[key + 2] == want, "key ", key, " on the device is ",
                 v[key + 2], " not ", want);
        Val o{-7, -7};
        const bool has = t.host_get(key, &o);
        MC_CHECK(has == (want >= 0), "key ", key, has ? " present" : " absent");
        if (has)
          MC_CHECK(o.b == want && o.a == want + 0.5, "key ", key);
      }
    }
    if (size > 1)
      mc::nontrivial();
  });
}

// ---- values not seen before ------------------------------------------------
static void unseen(int kind) {
  static const INT TAB[4][3] = {{0, 1, 1}, {-1, 5, 70}, {0, 0, 0}, {64, 63, -64}};
  mc_set_sched_bound(mc_tier ? 1 : 0);
  mc::ranks(1, [&](int) {
    World w({2, 1});
    w.target->parameters->set("LOOP_LOCAL_SIZE",
                              std::make_shared<SizeTParameter>(2));
    ParticleSpec spec{ParticleProp(Sym<REAL>("P"), 2, true),
                      ParticleProp(Sym<INT>("CELL_ID"), 1, true),
                      ParticleProp(Sym<INT>("ID"), 1),
                      ParticleProp(Sym<INT>("A"), 2)};
    auto g = std::make_shared<ParticleGroup>(w.domain, spec, w.target);
    ParticleSet ps(3, spec);
    for (int p = 0; p < 3; p++) {
      ps[Sym<INT>("CELL_ID")][p][0] = p / 2;
      ps[Sym<INT>("ID")][p][0] = p;
      ps[Sym<REAL>("P")][p][0] = p / 2 + 0.5;
      ps[Sym<REAL>("P")][p][1] = 0.5;
    }
    g->add_particles_local(ps);
    auto s = kind == 0 ? nullptr
             : kind == 1
                 ? particle_sub_group(g)
                 : particle_sub_group(
                       g, [](auto ID) { return ID.at(0) != 1; },
                       Access::read(Sym<INT>("ID")));
    if (kind == 3)
      s->add_ephemeral_dat(Sym<INT>("A"), 2);
    UnseenValueExtractor e(w.target);
    std::set<INT> seen;
    for (int d = 0; d < (mc_tier ? 4 : 3); d++) {
      const int row = mc::choose(5, "values"), comp = mc::choose(2, "component");
      mc::outcome(row * 2 + comp);
      std::set<INT> want;
      BufferDevice<INT> tab(w.target, std::vector<INT>(
                                          TAB[row % 4], TAB[row % 4] + 3));
      auto t = tab.ptr;
      const bool eph = kind == 3;
      auto set = [&](auto x) {
        particle_loop(
            x,
            [=](auto ID, auto A) {
              for (int c = 0; c < 2; c++) {
                const INT v = c == comp ? t[ID.at(0)] : 1000 + ID.at(0);
                if (eph)
                  A.at_ephemeral(c) = v;
                else
                  A.at(c) = v;
              }
            },
            Access::read(Sym<INT>("ID")), Access::write(Sym<INT>("A")))
            ->execute();
      };
      if (eph)
        set(s);
      else
        set(g);
      if (row == 4) // no particles
        g->clear();
      for (int p = 0; p < 3; p++)
        if (g->get_npart_local() && (kind < 2 || p != 1))
          want.insert(TAB[row % 4][p]);
      for (auto x : seen)
        want.erase(x);
      if (row == 4 && kind == 3)
        mc_discard(); // the ephemeral property ceased to exist
      auto got = s ? e.extract(s, Sym<INT>("A"), comp, eph)
                   : e.extract(g, Sym<INT>("A"), comp, false);
      MC_CHECK(got == want, "extracted ", got.size(), " values, expected ",
               want.size());
      seen.insert(want.begin(), want.end());
      if (d && got.size())
        mc::nontrivial();
    }
    s.reset();
    g->free();
  });
}
static void unseen_group() { unseen(0); }
static void unseen_whole() { unseen(1); }
static void unseen_sub() { unseen(2); }
static void unseen_eph() { unseen(3); }

// ---- pools of resources ----------------------------------------------------
struct Res {
  int id = 0, uses = 0;
};
static int made, freed, cleaned;
struct ResIf : ResourceStackInterface<Res> {
  int start;
  ResIf(int s) : start(s) {}
  std::shared_ptr<Res> construct() override {
    auto r = std::make_shared<Res>();
    r->id = start + made++;
    return r;
  }
  void free(std::shared_ptr<Res> &) override { freed++; }
  void clean(std::shared_ptr<Res> &r) override {
    cleaned++;
    r->uses = 0;
  }
};
struct Key {};
struct Key2 {};
static void pool() {
  const bool map = mc::choose(2, "map");
  made = freed = cleaned = 0;
  mc::ranks(1, [&](int) {
    auto rsm = std::make_shared<ResourceStackMap>();
    std::shared_ptr<ResourceStack<Res>> st;
    if (!map)
      st = create_resource_stack<Res, ResIf>(100);
    auto get = [&]() -> std::shared_ptr<Res> {
      return map ? get_resource<Res, ResIf>(rsm, Key{}, 100) : st->get();
    };
    auto put = [&](std::shared_ptr<Res> &r) {
      if (map)
        restore_resource(rsm, Key{}, r);
      else
        st->restore(r);
    };
    std::vector<std::shared_ptr<Res>> held;
    std::set<Res *> all;
    int restored = 0, live = 0;
    for (int d = 0; d < (mc_tier ? 7 : 6); d++) {
      const int op = mc::choose(5, "op");
      mc::outcome(op);
      if (op == 0) {
        auto r = get();
        MC_CHECK(r, "no object");
        MC_CHECK(r->uses == 0, "not cleaned");
        r->uses++;
        for (auto &h : held)
          MC_CHECK(h != r, "object handed out twice");
        held.push_back(r);
        live = std::max(live, (int)held.size());
        MC_CHECK(made == live, made, " constructed for ", live);
      } else if (op == 1 || op == 2) { // restore oldest or newest
        if (held.empty())
          mc_discard();
        auto it = op == 1 ? held.begin() : held.end() - 1;
        std::shared_ptr<Res> r = *it;
        held.erase(it);
        put(r);
        MC_CHECK(r == nullptr, "handle kept");
        MC_CHECK(cleaned == ++restored, "not cleaned on return");
        MC_CHECK(refused([&] { put(r); }), "restored twice");
        mc::nontrivial();
      } else if (op == 3) { // freed only when nothing is handed out
        auto fr = [&] {
          if (map)
            rsm->free();
          else
            st->free();
        };
        if (held.empty()) {
          const int n = live;
          freed = 0;
          fr();
          MC_CHECK(freed == n, freed, " of ", n, " freed");
          live = made = 0;
        } else {
          MC_CHECK(refused(fr), "freed while ", held.size(), " are in use");
          mc::nontrivial();
        }
      } else { // a reference is kept
        if (held.empty())
          mc_discard();
        auto keep = held.back();
        auto r = keep;
        held.pop_back();
        MC_CHECK(refused([&] { put(r); }), "restored while referenced");
        held.push_back(keep);
      }
    }
    while (!held.empty()) {
      auto r = held.back();
      held.pop_back();
      put(r);
    }
    if (map) {
      MC_CHECK(!rsm->exists(Key2{}), "unknown key");
      auto o = get_resource<Res, ResIf>(rsm, Key2{}, 500);
      MC_CHECK(o->id >= 500, "object of another key");
      restore_resource(rsm, Key2{}, o);
      MC_CHECK(rsm->exists(Key2{}), "key");
      rsm->free();
      MC_CHECK(!rsm->exists(Key{}) && !rsm->exists(Key2{}), "emptied");
    } else
      st->free();
  });
}

// ---- errors raised on the device -------------------------------------------
static void errors() {
  const int n = 3;
  mc_set_sched_bound(1);
  mc::ranks(1, [&](int) {
    World w({1, 1});
    auto e = error_propagate(w.target);
    int count = 0;
    for (int d = 0; d < 3; d++) {
      const int mask = mc::choose(1 << n, "failing items");
      mc::outcome(mask);
      auto p = e->device_ptr();
      w.target->queue
          .parallel_for(sycl::range<1>(n),
                        [=](auto i) {
                          NESO_KERNEL_ASSERT(!(mask >> (int)i & 1), p);
                        })
          .wait_and_throw();
      count += __builtin_popcount(mask);
      MC_CHECK(e->get_flag() == count, "flag ", e->get_flag(), " not ", count);
      MC_CHECK(refused([&] { e->check_and_throw("x"); }) == (count > 0),
               "check with ", count, " errors");
      if (mc::choose(2, "reset")) {
        e->reset();
        count = 0;
        MC_CHECK(e->get_flag() == 0, "flag after reset");
      }
      if (count)
        mc::nontrivial();
    }
  });
}

const mc_scenario mc_scenarios[] = {
    {"buffer_device", buf_device}, {"buffer_device_char", buf_device_c},
    {"buffer_host", buf_host},     {"buffer_shared", buf_shared},
    {"buffer_pair", buf_pair},     {"cell_dat_int", cd_int},
    {"cell_dat_real", cd_real},    {"cell_dat_const_int", cdc_int},
    {"cell_dat_const_real", cdc_real},
    {"tree2", tree2},              {"tree8", tree8},
    {"tree1", tree1},              {"lookup_table", table},
    {"unseen_group", unseen_group}, {"unseen_whole", unseen_whole},
    {"unseen_sub", unseen_sub},    {"unseen_ephemeral", unseen_eph},
    {"pool", pool},                {"errors", errors}};
const int mc_num_scenarios = sizeof(mc_scenarios) / sizeof(*mc_scenarios);
int main(int c, char **v) { return mc_main(c, v, mc_scenarios, mc_num_scenarios); }
