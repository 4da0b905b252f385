#pragma once
#include <cstdint>
#include <mc/engine.h>
struct jmp_buf_t;
struct mc_scenario {
  const char *name;
  void (*fn)(void);
};
// MPI layer hooks used by the engine
void mpi_begin(int n);
void mpi_reset();
void mpi_end();
bool mpi_quiesce();
[[noreturn]] void mc_do_abort_nr(int);
void mc_do_abort(int code);
extern "C" int mc_choose_mpi(int n);
extern int mc_send_sync;
extern "C" int mc_tier;
