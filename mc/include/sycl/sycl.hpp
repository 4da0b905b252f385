// Substitute SYCL header: host-only, every queue operation, work-item, atomic
// and barrier is handed to the controlled engine (mc/engine.h).
#pragma once
#include <mc/engine.h>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#define SYCL_LANGUAGE_VERSION 202012L
#define MC_NS __attribute__((no_sanitize("thread")))
#define MC_NSI __attribute__((no_sanitize("thread")))
namespace sycl {
using std::size_t;
class exception : public std::exception {
  std::string s;

public:
  exception(std::string s = "sycl exception") : s(std::move(s)) {}
  const char *what() const noexcept override { return s.c_str(); }
};
namespace detail {
template <int N> struct vecN {
  size_t v[N]{};
  size_t get(int i) const { return v[i]; }
  size_t &operator[](int i) { return v[i]; }
  size_t operator[](int i) const { return v[i]; }
};
template <int N> inline void delin(size_t lin, const size_t *r, size_t *out) {
  for (int d = N - 1; d >= 0; d--) {
    out[d] = lin % r[d];
    lin /= r[d];
  }
}
template <int N> inline size_t lin(const size_t *i, const size_t *r) {
  size_t l = 0;
  for (int d = 0; d < N; d++)
    l = l * r[d] + i[d];
  return l;
}
} // namespace detail
template <int N = 1> class range : public detail::vecN<N> {
public:
  static constexpr int dimensions = N;
  range() = default;
  template <int M = N, std::enable_if_t<M == 1, int> = 0> range(size_t a) {
    this->v[0] = a;
  }
  template <int M = N, std::enable_if_t<M == 2, int> = 0>
  range(size_t a, size_t b) {
    this->v[0] = a;
    this->v[1] = b;
  }
  template <int M = N, std::enable_if_t<M == 3, int> = 0>
  range(size_t a, size_t b, size_t c) {
    this->v[0] = a;
    this->v[1] = b;
    this->v[2] = c;
  }
  size_t size() const {
    size_t s = 1;
    for (int d = 0; d < N; d++)
      s *= this->v[d];
    return s;
  }
  bool operator==(const range &o) const {
    for (int d = 0; d < N; d++)
      if (this->v[d] != o.v[d])
        return false;
    return true;
  }
  bool operator!=(const range &o) const { return !(*this == o); }
};
range(size_t) -> range<1>;
range(size_t, size_t) -> range<2>;
range(size_t, size_t, size_t) -> range<3>;
namespace detail {
template <int N> struct idN : vecN<N> {};
template <> struct idN<1> : vecN<1> {
  operator size_t() const { return this->v[0]; }
};
template <typename D, int N> struct itemN {};
template <typename D> struct itemN<D, 1> {
  operator size_t() const { return static_cast<const D *>(this)->get_id(0); }
};
} // namespace detail
template <int N = 1> class id : public detail::idN<N> {
public:
  static constexpr int dimensions = N;
  id() = default;
  template <int M = N, std::enable_if_t<M == 1, int> = 0> id(size_t a) {
    this->v[0] = a;
  }
  template <int M = N, std::enable_if_t<M == 2, int> = 0>
  id(size_t a, size_t b) {
    this->v[0] = a;
    this->v[1] = b;
  }
  template <int M = N, std::enable_if_t<M == 3, int> = 0>
  id(size_t a, size_t b, size_t c) {
    this->v[0] = a;
    this->v[1] = b;
    this->v[2] = c;
  }
};
template <int N = 1, bool O = true>
class item : public detail::itemN<item<N, O>, N> {
  id<N> i;
  range<N> r;

public:
  static constexpr int dimensions = N;
  item(const id<N> &i, const range<N> &r) : i(i), r(r) {}
  id<N> get_id() const { return i; }
  size_t get_id(int d) const { return i.v[d]; }
  size_t operator[](int d) const { return i.v[d]; }
  range<N> get_range() const { return r; }
  size_t get_range(int d) const { return r.v[d]; }
  size_t get_linear_id() const { return detail::lin<N>(i.v, r.v); }
};
template <int N = 1> class nd_range {
  range<N> g, l;

public:
  nd_range(const range<N> &g, const range<N> &l) : g(g), l(l) {}
  range<N> get_global_range() const { return g; }
  range<N> get_local_range() const { return l; }
  range<N> get_group_range() const {
    range<N> r;
    for (int d = 0; d < N; d++)
      r.v[d] = l.v[d] ? g.v[d] / l.v[d] : 0;
    return r;
  }
};
enum class memory_order { relaxed, acquire, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };
namespace access {
enum class fence_space { local_space, global_space, global_and_local };
enum class address_space {
  global_space,
  local_space,
  private_space,
  generic_space
};
} // namespace access
template <int N = 1> class group {
public:
  size_t gl, ll;
  range<N> gr, lr;
  using id_type = id<N>;
  size_t get_local_linear_range() const { return lr.size(); }
  size_t get_local_linear_id() const { return ll; }
  size_t get_group_linear_id() const { return gl; }
  id<N> get_local_id() const {
    id<N> i;
    detail::delin<N>(ll, lr.v, i.v);
    return i;
  }
  size_t get_local_id(int d) const { return get_local_id().v[d]; }
  id<N> get_group_id() const {
    id<N> i;
    detail::delin<N>(gl, gr.v, i.v);
    return i;
  }
  size_t get_group_id(int d) const { return get_group_id().v[d]; }
  size_t get_id(int d) const { return get_group_id().v[d]; }
  size_t operator[](int d) const { return get_group_id().v[d]; }
  size_t get_linear_id() const { return gl; }
  range<N> get_local_range() const { return lr; }
  size_t get_local_range(int d) const { return lr.v[d]; }
  range<N> get_group_range() const { return gr; }
  size_t get_group_range(int d) const { return gr.v[d]; }
  size_t get_group_linear_range() const { return gr.size(); }
  bool leader() const { return ll == 0; }
};
template <int N = 1> class nd_item {
  size_t gl, ll;
  range<N> gr, lr; // number of groups, local range
public:
  static constexpr int dimensions = N;
  nd_item(size_t gl, size_t ll, const range<N> &gr, const range<N> &lr)
      : gl(gl), ll(ll), gr(gr), lr(lr) {}
  id<N> get_local_id() const {
    id<N> i;
    detail::delin<N>(ll, lr.v, i.v);
    return i;
  }
  size_t get_local_id(int d) const { return get_local_id().v[d]; }
  id<N> get_global_id() const {
    id<N> g, l = get_local_id();
    detail::delin<N>(gl, gr.v, g.v);
    for (int d = 0; d < N; d++)
      g.v[d] = g.v[d] * lr.v[d] + l.v[d];
    return g;
  }
  size_t get_global_id(int d) const { return get_global_id().v[d]; }
  size_t get_global_linear_id() const {
    id<N> g = get_global_id();
    range<N> r = get_global_range();
    return detail::lin<N>(g.v, r.v);
  }
  size_t get_local_linear_id() const { return ll; }
  group<N> get_group() const { return group<N>{gl, ll, gr, lr}; }
  size_t get_group(int d) const { return get_group().get_group_id(d); }
  size_t get_group_linear_id() const { return gl; }
  range<N> get_local_range() const { return lr; }
  size_t get_local_range(int d) const { return lr.v[d]; }
  range<N> get_group_range() const { return gr; }
  size_t get_group_range(int d) const { return gr.v[d]; }
  range<N> get_global_range() const {
    range<N> r;
    for (int d = 0; d < N; d++)
      r.v[d] = gr.v[d] * lr.v[d];
    return r;
  }
  size_t get_global_range(int d) const { return gr.v[d] * lr.v[d]; }
  void barrier(access::fence_space =
                   access::fence_space::global_and_local) const {
    mc_group_barrier(0);
  }
};
template <int N>
inline void group_barrier(const group<N> &,
                          memory_scope = memory_scope::work_group) {
  mc_group_barrier(0);
}

template <typename T = void> struct plus {
  T operator()(const T &a, const T &b) const { return a + b; }
};
template <> struct plus<void> {
  template <typename A, typename B>
  auto operator()(const A &a, const B &b) const {
    return a + b;
  }
};
template <typename T = void> struct multiplies {
  T operator()(const T &a, const T &b) const { return a * b; }
};
template <typename T = void> struct minimum {
  T operator()(const T &a, const T &b) const { return b < a ? b : a; }
};
template <> struct minimum<void> {
  template <typename T> T operator()(const T &a, const T &b) const {
    return b < a ? b : a;
  }
};
template <typename T = void> struct maximum {
  T operator()(const T &a, const T &b) const { return a < b ? b : a; }
};
template <> struct maximum<void> {
  template <typename T> T operator()(const T &a, const T &b) const {
    return a < b ? b : a;
  }
};
namespace detail {
template <typename Op, typename T> struct known_identity_of;
template <typename U, typename T> struct known_identity_of<plus<U>, T> {
  static T value() { return T(0); }
};
template <typename U, typename T> struct known_identity_of<multiplies<U>, T> {
  static T value() { return T(1); }
};
template <typename U, typename T> struct known_identity_of<minimum<U>, T> {
  static T value() {
    return std::numeric_limits<T>::has_infinity
               ? std::numeric_limits<T>::infinity()
               : std::numeric_limits<T>::max();
  }
};
template <typename U, typename T> struct known_identity_of<maximum<U>, T> {
  static T value() {
    return std::numeric_limits<T>::has_infinity
               ? -std::numeric_limits<T>::infinity()
               : std::numeric_limits<T>::lowest();
  }
};
template <typename T> MC_NS void put(void *p, size_t i, const T &v) {
  __builtin_memcpy((char *)p + i * sizeof(T), &v, sizeof(T));
}
template <typename T> MC_NS T getv(void *p, size_t i) {
  T v;
  __builtin_memcpy(&v, (char *)p + i * sizeof(T), sizeof(T));
  return v;
}
} // namespace detail
template <int N, typename T, typename Op>
inline T reduce_over_group(const group<N> &g, const T &x, Op op) {
  const size_t n = g.get_local_linear_range();
  void *s = mc_group_scratch(n * sizeof(T));
  detail::put<T>(s, g.get_local_linear_id(), x);
  mc_group_barrier(1);
  T acc = detail::getv<T>(s, 0);
  for (size_t i = 1; i < n; i++)
    acc = op(acc, detail::getv<T>(s, i));
  mc_group_barrier(1);
  return acc;
}
template <int N, typename T, typename Op>
inline T exclusive_scan_over_group(const group<N> &g, const T &x, Op op) {
  const size_t n = g.get_local_linear_range();
  void *s = mc_group_scratch(n * sizeof(T));
  detail::put<T>(s, g.get_local_linear_id(), x);
  mc_group_barrier(1);
  T acc = detail::known_identity_of<Op, T>::value();
  for (size_t i = 0; i < g.get_local_linear_id(); i++)
    acc = op(acc, detail::getv<T>(s, i));
  mc_group_barrier(1);
  return acc;
}
template <int N, typename T, typename Op>
inline T inclusive_scan_over_group(const group<N> &g, const T &x, Op op) {
  return op(exclusive_scan_over_group(g, x, op), x);
}
template <int N, typename T>
inline T group_broadcast(const group<N> &g, const T &x, size_t src = 0) {
  void *s = mc_group_scratch(sizeof(T) * g.get_local_linear_range());
  detail::put<T>(s, g.get_local_linear_id(), x);
  mc_group_barrier(1);
  T r = detail::getv<T>(s, src);
  mc_group_barrier(1);
  return r;
}
template <int N, typename I, typename O, typename T, typename Op>
inline O joint_exclusive_scan(const group<N> &g, I first, I last, O out, T init,
                              Op op) {
  mc_group_barrier(2);
  const size_t n = last - first;
  if (g.leader()) {
    auto acc = init;
    for (size_t i = 0; i < n; i++) {
      auto t = first[i];
      out[i] = acc;
      acc = op(acc, t);
    }
  }
  mc_group_barrier(2);
  return out + n;
}
template <int N, typename I, typename O, typename Op>
inline O joint_exclusive_scan(const group<N> &g, I first, I last, O out,
                              Op op) {
  using T = std::decay_t<decltype(*first)>;
  return joint_exclusive_scan(
      g, first, last, out, T(detail::known_identity_of<Op, T>::value()), op);
}
template <int N, typename I, typename O, typename Op, typename T>
inline O joint_inclusive_scan(const group<N> &g, I first, I last, O out, Op op,
                              T init) {
  mc_group_barrier(3);
  const size_t n = last - first;
  if (g.leader()) {
    auto acc = init;
    for (size_t i = 0; i < n; i++) {
      acc = op(acc, first[i]);
      out[i] = acc;
    }
  }
  mc_group_barrier(3);
  return out + n;
}
template <int N, typename I, typename O, typename Op>
inline O joint_inclusive_scan(const group<N> &g, I first, I last, O out,
                              Op op) {
  using T = std::decay_t<decltype(*first)>;
  return joint_inclusive_scan(g, first, last, out, op,
                              T(detail::known_identity_of<Op, T>::value()));
}
template <int N, typename I, typename T, typename Op>
inline T joint_reduce(const group<N> &g, I first, I last, T init, Op op) {
  void *s = mc_group_scratch(sizeof(T) * g.get_local_linear_range());
  mc_group_barrier(4);
  if (g.leader()) {
    T acc = init;
    for (; first != last; ++first)
      acc = op(acc, *first);
    detail::put<T>(s, 0, acc);
  }
  mc_group_barrier(4);
  T r = detail::getv<T>(s, 0);
  mc_group_barrier(4);
  return r;
}
template <int N, typename I, typename Op>
inline auto joint_reduce(const group<N> &g, I first, I last, Op op) {
  using T = std::decay_t<decltype(*first)>;
  return joint_reduce(g, first, last,
                      T(detail::known_identity_of<Op, T>::value()), op);
}

template <typename T, memory_order DO = memory_order::relaxed,
          memory_scope DS = memory_scope::device,
          access::address_space AS = access::address_space::generic_space>
class atomic_ref {
  T *p;
  MC_NS T ld() const { return *p; }
  MC_NS void st(T v) const { *p = v; }

public:
  explicit atomic_ref(T &r) : p(&r) {}
  T load(memory_order = DO, memory_scope = DS) const {
    mc_atomic((void *)p, sizeof(T), 0);
    return ld();
  }
  void store(T v, memory_order = DO, memory_scope = DS) const {
    mc_atomic((void *)p, sizeof(T), 1);
    st(v);
  }
  operator T() const { return load(); }
  T operator=(T v) const {
    store(v);
    return v;
  }
  T exchange(T v, memory_order = DO, memory_scope = DS) const {
    mc_atomic((void *)p, sizeof(T), 1);
    T o = ld();
    st(v);
    return o;
  }
#define MC_RMW(name, expr)                                                     \
  T name(T v, memory_order = DO, memory_scope = DS) const {                    \
    mc_atomic((void *)p, sizeof(T), 1);                                        \
    T o = ld();                                                                \
    st(expr);                                                                  \
    return o;                                                                  \
  }
  MC_RMW(fetch_add, o + v)
  MC_RMW(fetch_sub, o - v)
  MC_RMW(fetch_min, (v < o ? v : o))
  MC_RMW(fetch_max, (o < v ? v : o))
  template <typename U = T> U fetch_or(U v) const {
    mc_atomic((void *)p, sizeof(T), 1);
    T o = ld();
    st(o | v);
    return o;
  }
  template <typename U = T> U fetch_and(U v) const {
    mc_atomic((void *)p, sizeof(T), 1);
    T o = ld();
    st(o & v);
    return o;
  }
  T operator+=(T v) const { return fetch_add(v) + v; }
  T operator-=(T v) const { return fetch_sub(v) - v; }
  T operator++(int) const { return fetch_add(T(1)); }
  T operator++() const { return fetch_add(T(1)) + T(1); }
  bool compare_exchange_strong(T &e, T d, memory_order = DO,
                               memory_scope = DS) const {
    mc_atomic((void *)p, sizeof(T), 1);
    T o = ld();
    if (__builtin_memcmp(&o, &e, sizeof(T)) == 0) {
      st(d);
      return true;
    }
    e = o;
    return false;
  }
  bool compare_exchange_strong(T &e, T d, memory_order, memory_order,
                               memory_scope = DS) const {
    return compare_exchange_strong(e, d);
  }
  bool compare_exchange_weak(T &e, T d, memory_order = DO,
                             memory_scope = DS) const {
    return compare_exchange_strong(e, d);
  }
};
inline void atomic_fence(memory_order, memory_scope) {}

// ---------------------------------------------------------------- devices
namespace info {
enum class local_mem_type { none, local, global };
namespace device {
struct name { using return_type = std::string; };
struct vendor { using return_type = std::string; };
struct max_work_group_size { using return_type = size_t; };
struct local_mem_size { using return_type = uint64_t; };
struct global_mem_size { using return_type = uint64_t; };
struct local_mem_type { using return_type = info::local_mem_type; };
struct max_compute_units { using return_type = uint32_t; };
template <int N> struct max_work_item_sizes { using return_type = range<N>; };
struct native_vector_width_float { using return_type = uint32_t; };
struct native_vector_width_double { using return_type = uint32_t; };
struct global_mem_cache_line_size { using return_type = uint32_t; };
} // namespace device
} // namespace info
namespace detail {
template <typename P> struct dev_info;
#define MC_DI(P, E)                                                            \
  template <> struct dev_info<info::device::P> {                               \
    static typename info::device::P::return_type get() { return E; }           \
  };
MC_DI(name, std::string(mc_device()->name))
MC_DI(vendor, std::string(mc_device()->vendor))
MC_DI(max_work_group_size, mc_device()->max_work_group_size)
MC_DI(local_mem_size, mc_device()->local_mem_size)
MC_DI(global_mem_size, 1ul << 30)
MC_DI(local_mem_type, info::local_mem_type::local)
MC_DI(max_compute_units, mc_device()->max_compute_units)
MC_DI(native_vector_width_float, mc_device()->native_vector_width_double * 2)
MC_DI(native_vector_width_double, mc_device()->native_vector_width_double)
MC_DI(global_mem_cache_line_size, mc_device()->cache_line)
template <int N> struct dev_info<info::device::max_work_item_sizes<N>> {
  static range<N> get() {
    range<N> r;
    for (int d = 0; d < N; d++)
      r.v[d] = mc_device()->max_work_group_size;
    return r;
  }
};
struct selector {
  int kind;
};
} // namespace detail
class device;
class platform {
public:
  template <typename T = int> std::vector<device> get_devices() const;
};
inline constexpr detail::selector cpu_selector_v{-1};
inline constexpr detail::selector gpu_selector_v{1};
inline constexpr detail::selector default_selector_v{0};
class device {
public:
  device() = default;
  explicit device(const detail::selector &s) {
    if (s.kind == 1 && !mc_device()->is_gpu)
      throw exception("no GPU");
    if (s.kind == -1 && mc_device()->is_gpu)
      throw exception("no CPU");
  }
  bool is_cpu() const { return !mc_device()->is_gpu; }
  bool is_gpu() const { return mc_device()->is_gpu; }
  platform get_platform() const { return platform{}; }
  template <typename P> auto get_info() const {
    return detail::dev_info<P>::get();
  }
};
template <typename T> std::vector<device> platform::get_devices() const {
  return std::vector<device>(1);
}

class event {
public:
  uint32_t cmd = 0;
  void wait() {
    if (cmd)
      mc_event_wait(cmd);
  }
  void wait_and_throw() { wait(); }
  static void wait(const std::vector<event> &v) {
    for (auto e : v)
      e.wait();
  }
};

class handler;
template <typename T, int N = 1> class local_accessor {
public:
  size_t off = 0;
  range<N> r;
  local_accessor() = default;
  local_accessor(const range<N> &r, handler &h);
  T *base() const { return (T *)(mc_local_base() + off); }
  template <int M = N, std::enable_if_t<M == 1, int> = 0>
  T &operator[](size_t i) const {
    return base()[i];
  }
  T &operator[](const id<N> &i) const {
    return base()[detail::lin<N>(i.v, r.v)];
  }
  struct row {
    T *p;
    T &operator[](size_t i) const { return p[i]; }
  };
  template <int M = N, std::enable_if_t<M == 2, int> = 0>
  row operator[](size_t i) const {
    return row{base() + i * r.v[1]};
  }
  size_t size() const { return r.size(); }
  T *get_pointer() const { return base(); }
};

namespace detail {
template <typename F, int N> struct range_k {
  F f;
  range<N> r;
  static void call(const void *p, size_t g, size_t) {
    const range_k *k = (const range_k *)p;
    id<N> i;
    delin<N>(g, k->r.v, i.v);
    if constexpr (std::is_invocable_v<const F &, item<N>>)
      k->f(item<N>(i, k->r));
    else if constexpr (std::is_invocable_v<const F &, id<N>>)
      k->f(i);
    else
      k->f(i.v[0]);
  }
};
template <typename F, int N> struct nd_k {
  F f;
  range<N> gr, lr;
  static void call(const void *p, size_t g, size_t l) {
    const nd_k *k = (const nd_k *)p;
    k->f(nd_item<N>(g, l, k->gr, k->lr));
  }
};
template <typename F> struct task_k {
  F f;
  static void call(const void *p, size_t, size_t) {
    ((const task_k *)p)->f();
  }
};
struct cmd_base {
  virtual ~cmd_base() {}
  virtual uint32_t run(uint32_t q, const std::vector<uint32_t> &deps) = 0;
};
template <typename K> struct kcmd : cmd_base {
  K k;
  mc_launch_desc d{};
  kcmd(K &&k) : k(std::move(k)) {}
  uint32_t run(uint32_t q, const std::vector<uint32_t> &deps) override {
    d.f = &k;
    d.fsize = sizeof(K);
    d.fn = &K::call;
    d.deps = deps.data();
    d.ndeps = deps.size();
    return mc_launch(q, &d);
  }
};
struct memcpy_cmd : cmd_base {
  void *d;
  const void *s;
  size_t n;
  uint32_t run(uint32_t q, const std::vector<uint32_t> &deps) override {
    return mc_cmd_memcpy(q, d, s, n, deps.data(), deps.size());
  }
};
} // namespace detail

class handler {
public:
  size_t local_bytes = 0;
  std::unique_ptr<detail::cmd_base> c;
  std::vector<uint32_t> deps;
  void depends_on(const event &e) { deps.push_back(e.cmd); }
  void depends_on(const std::vector<event> &v) {
    for (auto &e : v)
      deps.push_back(e.cmd);
  }
  template <typename KN = void, int N, typename F>
  void parallel_for(const range<N> &r, F f) {
    auto p = std::make_unique<detail::kcmd<detail::range_k<F, N>>>(
        detail::range_k<F, N>{std::move(f), r});
    p->d.ngroups = r.size();
    p->d.local = 0;
    p->d.name = __PRETTY_FUNCTION__;
    c = std::move(p);
  }
  template <typename KN = void, typename F>
  void parallel_for(size_t n, F f) {
    parallel_for<KN>(range<1>(n), std::move(f));
  }
  template <typename KN = void, int N, typename F>
  void parallel_for(const nd_range<N> &r, F f) {
    for (int d = 0; d < N; d++) {
      if (r.get_local_range().v[d] == 0 ||
          r.get_global_range().v[d] % r.get_local_range().v[d] != 0)
        mc_fail("sycl", "nd_range local size does not divide global size");
    }
    if (r.get_local_range().size() > mc_device()->max_work_group_size)
      mc_fail("sycl", "work-group size %zu exceeds device maximum %zu",
              r.get_local_range().size(), mc_device()->max_work_group_size);
    auto p = std::make_unique<detail::kcmd<detail::nd_k<F, N>>>(
        detail::nd_k<F, N>{std::move(f), r.get_group_range(),
                           r.get_local_range()});
    p->d.ngroups = r.get_group_range().size();
    p->d.local = r.get_local_range().size();
    p->d.name = __PRETTY_FUNCTION__;
    c = std::move(p);
  }
  template <typename KN = void, typename F> void single_task(F f) {
    auto p = std::make_unique<detail::kcmd<detail::task_k<F>>>(
        detail::task_k<F>{std::move(f)});
    p->d.ngroups = 1;
    p->d.local = 0;
    p->d.name = __PRETTY_FUNCTION__;
    c = std::move(p);
  }
  void memcpy(void *d, const void *s, size_t n) {
    auto p = std::make_unique<detail::memcpy_cmd>();
    p->d = d;
    p->s = s;
    p->n = n;
    c = std::move(p);
  }
  void set_local() {
    if (auto *k = dynamic_cast<detail::cmd_base *>(c.get()))
      (void)k;
  }
};
template <typename T, int N>
local_accessor<T, N>::local_accessor(const range<N> &r, handler &h) : r(r) {
  const size_t al = alignof(T) < 16 ? 16 : alignof(T);
  h.local_bytes = (h.local_bytes + al - 1) / al * al;
  off = h.local_bytes;
  h.local_bytes += sizeof(T) * r.size();
}
namespace property {
namespace queue {
struct in_order {};
struct enable_profiling {};
} // namespace queue
} // namespace property
struct property_list {
  bool in_order = false;
  property_list() = default;
  template <typename... P> property_list(P... p) { (add(p), ...); }
  void add(const property::queue::in_order &) { in_order = true; }
  template <typename P> void add(const P &) {}
};
// local byte count has to be known when the command runs: the engine reads it
// from here (set by queue::submit just before running the command).
extern "C" void mc_next_local_bytes(size_t n);
class queue {
  device dev;
  uint32_t q = 0;
  bool io = false;
  // A command group function may not submit further commands.
  struct Nest {
    static inline int depth = 0;
    Nest() {
      if (depth)
        mc_fail("sycl", "calls to sycl::queue::submit cannot be nested");
      depth++;
    }
    ~Nest() { depth--; }
  };

public:
  queue() : q(mc_queue_create(0)) {}
  explicit queue(const device &d, const property_list &p = {})
      : dev(d), q(mc_queue_create(p.in_order)), io(p.in_order) {}
  explicit queue(const detail::selector &s, const property_list &p = {})
      : dev(s), q(mc_queue_create(p.in_order)), io(p.in_order) {}
  device get_device() const { return dev; }
  bool is_in_order() const { return io; }
  template <typename F> event submit(F &&cgf) {
    handler h;
    {
      Nest n;
      cgf(h);
    }
    event e;
    if (h.c) {
      mc_next_local_bytes(h.local_bytes);
      e.cmd = h.c->run(q, h.deps);
    }
    return e;
  }
  template <typename KN = void, typename R, typename F>
  std::enable_if_t<!std::is_same_v<std::decay_t<F>, event>, event>
  parallel_for(const R &r, F f) {
    return submit([&](handler &h) { h.parallel_for<KN>(r, f); });
  }
  template <typename KN = void, typename R, typename F>
  event parallel_for(const R &r, event dep, F f) {
    return submit([&](handler &h) {
      h.depends_on(dep);
      h.parallel_for<KN>(r, f);
    });
  }
  template <typename KN = void, typename R, typename F>
  event parallel_for(const R &r, const std::vector<event> &dep, F f) {
    return submit([&](handler &h) {
      h.depends_on(dep);
      h.parallel_for<KN>(r, f);
    });
  }
  template <typename KN = void, typename F> event single_task(F f) {
    return submit([&](handler &h) { h.single_task<KN>(f); });
  }
  event memcpy(void *d, const void *s, size_t n) {
    Nest{};
    event e;
    e.cmd = mc_cmd_memcpy(q, d, s, n, nullptr, 0);
    return e;
  }
  event memcpy(void *d, const void *s, size_t n, event dep) {
    Nest{};
    event e;
    e.cmd = mc_cmd_memcpy(q, d, s, n, &dep.cmd, 1);
    return e;
  }
  template <typename T> event copy(const T *s, T *d, size_t n) {
    return memcpy(d, s, n * sizeof(T));
  }
  event memset(void *d, int v, size_t n) {
    Nest{};
    event e;
    unsigned char c = v;
    e.cmd = mc_cmd_fill(q, d, &c, 1, n);
    return e;
  }
  template <typename T> event fill(void *d, const T &v, size_t n) {
    Nest{};
    event e;
    e.cmd = mc_cmd_fill(q, d, &v, sizeof(T), n);
    return e;
  }
  void wait() { mc_queue_wait(q); }
  void wait_and_throw() { wait(); }
  uint32_t mc_id() const { return q; }
};

inline void *malloc_device(size_t n, const queue &) {
  return mc_alloc(n, MC_DEVICE, 0);
}
inline void *malloc_host(size_t n, const queue &) {
  return mc_alloc(n, MC_HOST, 0);
}
inline void *malloc_shared(size_t n, const queue &) {
  return mc_alloc(n, MC_SHARED, 0);
}
template <typename T> T *malloc_device(size_t n, const queue &) {
  return (T *)mc_alloc(n * sizeof(T), MC_DEVICE, 0);
}
template <typename T> T *malloc_host(size_t n, const queue &) {
  return (T *)mc_alloc(n * sizeof(T), MC_HOST, 0);
}
template <typename T> T *malloc_shared(size_t n, const queue &) {
  return (T *)mc_alloc(n * sizeof(T), MC_SHARED, 0);
}
inline void *aligned_alloc_device(size_t a, size_t n, const queue &) {
  return mc_alloc(n, MC_DEVICE, a);
}
inline void *aligned_alloc_host(size_t a, size_t n, const queue &) {
  return mc_alloc(n, MC_HOST, a);
}
inline void *aligned_alloc_shared(size_t a, size_t n, const queue &) {
  return mc_alloc(n, MC_SHARED, a);
}
inline void free(void *p, const queue &) { mc_free(p); }

// ---------------------------------------------------------------- math
#define MC_M1(n)                                                               \
  template <typename T> inline auto n(T x) { return std::n(x); }
MC_M1(sqrt) MC_M1(sin) MC_M1(cos) MC_M1(tan) MC_M1(exp) MC_M1(log) MC_M1(log2)
MC_M1(log10) MC_M1(fabs) MC_M1(trunc) MC_M1(floor) MC_M1(ceil) MC_M1(tgamma)
MC_M1(asin) MC_M1(acos) MC_M1(atan) MC_M1(cbrt) MC_M1(isnan) MC_M1(isfinite)
// SYCL 2020 requires round() to round half away from zero, as std::round.
MC_M1(round)
template <typename T> inline T rsqrt(T x) { return T(1) / std::sqrt(x); }
template <typename T> inline T abs(T x) { return x < 0 ? -x : x; }
#define MC_M2(n)                                                               \
  template <typename T, typename U> inline auto n(T x, U y) {                  \
    return std::n(x, y);                                                       \
  }
MC_M2(pow) MC_M2(fmod) MC_M2(atan2) MC_M2(fmin) MC_M2(fmax) MC_M2(copysign)
MC_M2(hypot)
template <typename T> inline T fma(T a, T b, T c) { return std::fma(a, b, c); }
template <typename T> inline T sincos(T x, T *c) {
  *c = std::cos(x);
  return std::sin(x);
}
template <typename T> inline T min(T a, T b) { return b < a ? b : a; }
template <typename T> inline T max(T a, T b) { return a < b ? b : a; }
template <typename T> inline T clamp(T x, T a, T b) {
  return min(max(x, a), b);
}
template <typename T> inline T ctz(T x) {
  return x ? T(__builtin_ctzll((unsigned long long)x)) : T(sizeof(T) * 8);
}
template <typename T> inline T clz(T x) {
  int n = 0;
  for (int i = int(sizeof(T) * 8) - 1; i >= 0 && !((x >> i) & 1); i--)
    n++;
  return T(n);
}
template <typename T> inline T popcount(T x) {
  return T(__builtin_popcountll((unsigned long long)x));
}
using std::isnan;
} // namespace sycl
