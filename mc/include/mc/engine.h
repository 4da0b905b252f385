// C interface of the controlled runtime ("engine").  The engine is built as a
// separate, uninstrumented shared object; the code under test, the substitute
// SYCL header and the harnesses are instrumented and talk to it through this.
#pragma once
#include <cstddef>
#include <cstdint>
#ifdef __cplusplus
extern "C" {
#endif

#define MC_DEVICE 0
#define MC_HOST 1
#define MC_SHARED 2
#define MC_LOCAL 3
#define MC_WIN 4

typedef struct {
  int is_gpu;            // 1 -> is_gpu() and not is_cpu()
  const char *vendor;
  const char *name;
  size_t max_work_group_size;
  size_t local_mem_size;
  unsigned max_compute_units;
  unsigned native_vector_width_double;
  unsigned cache_line;
} mc_device_info;

mc_device_info *mc_device(void);

// ---- choices / reporting ----
int mc_choose(int n, const char *label);        // enumerated input, cost 0
void mc_fail(const char *kind, const char *fmt, ...)
    __attribute__((noreturn, format(printf, 2, 3)));
void mc_outcome(uint64_t h);     // fold into the execution's outcome hash
void mc_nontrivial(void);        // execution satisfied its non-triviality rule
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_discard(void) __attribute__((noreturn)); // vacuous input combination
int mc_verbose(void);
// Scenario knobs, reset to defaults before each execution.
void mc_set_sched_bound(int d);   // max schedule deviations in this execution
void mc_set_item_order(int k);    // 0 asc, 1 desc, 2 round-robin at atomics
void mc_set_rank_order(int k);    // 0 asc, 1 desc run order of ranks
void mc_set_poison(int byte);     // byte pattern of fresh memory
void mc_set_send_mode(int sync);  // MPI_Send: 1 synchronous, 0 buffered
void mc_race_off(int off);        // harness internal inspection of memory
void mc_expect_abort(int on);     // MPI_Abort throws instead of failing
int mc_abort_count(void);

// ---- ranks ----
typedef void (*mc_rank_fn)(void *arg, int rank);
void mc_run_ranks(int n, mc_rank_fn fn, void *arg);
int mc_rank(void);
int mc_nranks(void);
// block current rank until pred(arg) is true; `what` is used in deadlock texts
void mc_block(int (*pred)(void *), void *arg, const char *what);
// scheduling point between ranks (a rank-visible shared operation on object)
void mc_rank_point(uint64_t object, const char *what);

// ---- SYCL ----
uint32_t mc_queue_create(int in_order);
void mc_queue_wait(uint32_t q);
typedef void (*mc_item_fn)(const void *f, size_t group, size_t local);
typedef struct {
  const void *f;
  size_t fsize;
  mc_item_fn fn;
  size_t ngroups;
  size_t local;    // 0 -> plain range kernel with ngroups items
  size_t local_bytes;
  const uint32_t *deps;
  size_t ndeps;
  const char *name;
} mc_launch_desc;
uint32_t mc_launch(uint32_t q, const mc_launch_desc *d);
uint32_t mc_cmd_memcpy(uint32_t q, void *dst, const void *src, size_t n,
                       const uint32_t *deps, size_t ndeps);
uint32_t mc_cmd_fill(uint32_t q, void *dst, const void *pat, size_t psize,
                     size_t count);
void mc_event_wait(uint32_t cmd);
char *mc_local_base(void);
void mc_group_barrier(int kind);
void *mc_group_scratch(size_t bytes);
void mc_atomic(void *p, size_t n, int rmw);
int mc_in_kernel(void);

void *mc_alloc(size_t n, int kind, size_t align);
void mc_free(void *p);
size_t mc_usm_size(const void *p); // bytes from p to end of its live allocation
int mc_usm_kind(const void *p);    // -1 if not USM

// ---- in-flight ranges of MPI requests ----
uint32_t mc_pending_begin(void *p, size_t n, int is_write, const char *what);
void mc_pending_end(uint32_t id);
// check an access made by the (uninstrumented) MPI layer on behalf of the rank
void mc_host_access(const void *p, size_t n, int is_write, const char *what);

#ifdef __cplusplus
}
#endif
