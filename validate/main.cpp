// Runs the repository's own gtest suite on the substitute runtime.
#include <gtest/gtest.h>
#include <mc/mc.hpp>
static int rc = 0;
static void all() {
  mc::ranks(1, [](int) { rc = RUN_ALL_TESTS(); });
}
static const mc_scenario S[] = {{"gtest", all}};
int main(int argc, char **argv) {
  ::testing::InitGoogleTest(&argc, argv);
  setenv("MC_ONCE", "1", 1);
  mc_main(argc, argv, S, 1);
  return rc;
}
