// Engine hooks when the program runs on the real MPI library.
#include "internal.h"
#include <mpi.h>
#include <unistd.h>
#define EXPORT extern "C" __attribute__((visibility("default")))
int mc_send_sync_;
void mpi_begin(int) {}
void mpi_reset() {}
void mpi_end() {}
bool mpi_quiesce() { return false; }
EXPORT void mc_set_ranks_per_node(int) {}
EXPORT int MPI_Abort(MPI_Comm, int code) {
  mc_do_abort(code);
  return 0;
}
void mpi_ls_init(int *rank, int *size) {
  int f = 0;
  MPI_Initialized(&f);
  if (!f) {
    int p;
    MPI_Init_thread(nullptr, nullptr, MPI_THREAD_FUNNELED, &p);
  }
  MPI_Comm_rank(MPI_COMM_WORLD, rank);
  MPI_Comm_size(MPI_COMM_WORLD, size);
}
void mpi_ls_bcast(void *p, size_t n) {
  MPI_Bcast(p, (int)n, MPI_BYTE, 0, MPI_COMM_WORLD);
}
void mpi_ls_exit() {
  _exit(0);
}
