// Shared helpers of the harnesses.
#pragma once
#include <neso_particles.hpp>
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <numeric>
#include <set>
#include <mc/mc.hpp>

using namespace NESO::Particles;
namespace H {

// Deterministic mixing: value of property comp of particle id.
inline uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdull;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ull;
  x ^= x >> 33;
  return x;
}
inline double rval(int id, int c) {
  return (double)(mix(id * 131 + c) >> 12) * 1e-3 - 7.0 + c;
}
inline INT ival(int id, int c) { return (INT)(mix(id * 17 + c * 3 + 5) >> 2); }

// A mesh of nx cells (and ny, nz rows) of unit size on `comm`.
struct World {
  std::shared_ptr<CartesianHMesh> mesh;
  SYCLTargetSharedPtr target;
  std::shared_ptr<CartesianHMeshLocalMapperT> mapper;
  DomainSharedPtr domain;
  World(std::vector<int> dims, int subdivision = 0, int stencil = 0,
        double extent = 1.0, MPI_Comm comm = MPI_COMM_WORLD) {
    mesh = std::make_shared<CartesianHMesh>(comm, (int)dims.size(), dims,
                                            extent, subdivision, stencil);
    target = std::make_shared<SYCLTarget>(0, comm);
    mapper = CartesianHMeshLocalMapper(target, mesh);
    domain = std::make_shared<Domain>(mesh, mapper);
  }
  ~World() {
    domain.reset();
    mesh->free();
    target->free();
  }
};
} // namespace H
