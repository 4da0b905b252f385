#pragma once
#include "engine.h"
#include <cstdio>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <type_traits>
namespace mc {
struct Aborted {};
inline int choose(int n, const char *label) { return mc_choose(n, label); }
template <typename... A> [[noreturn]] inline void fail(A &&...a) {
  std::ostringstream s;
  s.precision(17);
  ((s << a), ...);
  mc_fail("property", "%s", s.str().c_str());
}
#define MC_CHECK(c, ...)                                                       \
  do {                                                                         \
    if (!(c))                                                                  \
      ::mc::fail("check failed: " #c " @", __LINE__, ": ", __VA_ARGS__);       \
  } while (0)
inline void outcome(uint64_t x) { mc_outcome(x); }
template <typename T> inline void outcome_v(const T &v) {
  for (auto &x : v) {
    uint64_t u = 0;
    if constexpr (std::is_floating_point_v<std::decay_t<decltype(x)>>) {
      double d = x;
      __builtin_memcpy(&u, &d, 8);
    } else
      u = (uint64_t)x;
    mc_outcome(u);
  }
}
inline void nontrivial() { mc_nontrivial(); }
// Run a function once per rank, each rank on its own fiber.
inline void ranks(int n, const std::function<void(int)> &fn) {
  mc_run_ranks(
      n,
      [](void *a, int r) {
        (*static_cast<const std::function<void(int)> *>(a))(r);
      },
      (void *)&fn);
}
// Mark a region of host code which inspects memory for the oracle.
struct Scenario {
  const char *name;
  void (*fn)();
  int sched_bound_quick;
  int sched_bound_thorough;
};
} // namespace mc
// Implemented by each harness.
struct mc_scenario {
  const char *name;
  void (*fn)(void);
};
extern "C" {
extern const mc_scenario mc_scenarios[];
extern const int mc_num_scenarios;
extern int mc_tier; // 0 quick 1 thorough
int mc_main(int argc, char **argv, const mc_scenario *s, int n);
}
