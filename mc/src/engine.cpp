// Controlled runtime: choice-tree exploration of real executions, cooperative
// scheduling of MPI ranks and SYCL work-items, happens-before checking of all
// device/host accesses.  Built uninstrumented, all C++ symbols local.
#include <mc/engine.h>
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <map>
#include <new>
#include <poll.h>
#include <string>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))
namespace mc {
struct Aborted {};
} // namespace mc

// ------------------------------------------------------------------ fibers
asm(R"(
.text
.globl mc_ctx_switch
.type mc_ctx_switch,@function
mc_ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_ctx_switch,.-mc_ctx_switch
)");
extern "C" __attribute__((visibility("hidden"))) void
mc_ctx_switch(void **save, void *load);

struct Fiber {
  void *sp = nullptr;
  char *stk = nullptr;
  size_t sz = 0;
  void (*fn)(void *) = nullptr;
  void *arg = nullptr;
  int rank = -1;
};
static Fiber main_fiber;
static Fiber *cur_fiber = &main_fiber;

static void fiber_entry() {
  Fiber *f = cur_fiber;
  f->fn(f->arg);
  abort();
}
static Fiber *fiber_new(size_t sz) {
  Fiber *f = new Fiber;
  char *p = (char *)mmap(nullptr, sz + 4096, PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    abort();
  mprotect(p, 4096, PROT_NONE);
  f->stk = p + 4096;
  f->sz = sz;
  return f;
}
static void fiber_prepare(Fiber *f, void (*fn)(void *), void *arg) {
  f->fn = fn;
  f->arg = arg;
  uintptr_t top = ((uintptr_t)f->stk + f->sz) & ~(uintptr_t)63;
  void **s = (void **)top;
  *--s = nullptr;              // fake return address / alignment
  *--s = (void *)fiber_entry;  // ret target
  for (int i = 0; i < 6; i++)
    *--s = nullptr;
  f->sp = s;
}
static void fiber_switch(Fiber *to) {
  Fiber *from = cur_fiber;
  cur_fiber = to;
  mc_ctx_switch(&from->sp, to->sp);
}

// ------------------------------------------------------------------ memory
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ASZ = 1ull << 28; // per arena kind (256MB)
static const int NAR = 5;
static const size_t ATOT = ASZ * NAR;
static const uintptr_t SHADOW = 0x300000000000ull;
struct Cell {
  uint32_t w, r1, r2;
  uint8_t addr, wm, r1m, r2m; // wm/rm: low 4 bits byte mask, bit 4 atomic
};
static_assert(sizeof(Cell) == 16, "");
static inline Cell *cell(uintptr_t a) {
  return (Cell *)(SHADOW + ((a - ARENA) >> 2) * sizeof(Cell));
}
struct Alloc {
  uintptr_t a;
  size_t n;
  int kind, rank;
  bool live;
};
static std::vector<Alloc> allocs[NAR];
static size_t bump[NAR];

struct Cmd {
  uint32_t queue;
  int rank;
  bool done;
  bool mpi;
  std::vector<uint32_t> deps;
  const char *name;
};
static std::vector<Cmd> cmds;
struct Actor {
  uint32_t cmd, group, item, phase;
};
static std::vector<Actor> actors;
struct Pend {
  uintptr_t lo, hi;
  bool write;
  uint32_t cmd;
};
static std::vector<Pend> pend;
struct Queue {
  bool in_order;
  int rank;
  std::vector<uint32_t> inflight;
  uint32_t last = 0;
};
static std::vector<Queue> queues;

// ------------------------------------------------------------------ state
struct Ch {
  uint16_t n;
  uint16_t taken;
  uint8_t sched;
};
struct ChoiceRec {
  std::vector<Ch> trace;
  std::vector<std::pair<uint32_t, std::vector<uint16_t>>> alts; // sched nodes
};
static ChoiceRec rec;
static std::vector<std::pair<uint32_t, uint16_t>> prefix;
static size_t prefix_pos = 0;
static uint32_t prefix_len = 0; // nodes below this index are forced
static bool active = false;
static bool race_off = false;
static int in_kernel = 0;
static bool slow_mode = false;
static int verbose = 0;
static int sched_bound = 0, deviations = 0, item_order = 0, rank_order = 0;
static int poison_byte = 0xCD;
int mc_send_sync = 1;
static int expect_abort = 0, abort_count = 0;
static uint64_t outcome = 0;
static bool nontriv = false;
static uint64_t n_atomics = 0, n_launches = 0, n_items = 0, n_accesses = 0;
static char notes[4096];
static int cur_rank = 0, nranks = 1;
static jmp_buf_t *discard_jmp = nullptr;
static mc_device_info dev_default = {0, "mc", "mc-device", 1024, 65536, 4, 4, 64};
static mc_device_info dev = dev_default;
static const char *cur_kernel = "";

struct Slot { // shared memory, one per worker
  volatile int state; // 0 idle 1 running 2 violation 3 ok-batch-done
  volatile double t0;
  int scenario;
  uint32_t plen;
  uint32_t npre;
  struct {
    uint32_t i;
    uint16_t v;
  } pre[20000];
  char kind[64];
  char msg[8192];
  volatile uint64_t execs;
  volatile int claim; // several processes may fail at once (real MPI)
  volatile int pids[16];
};
static Slot *slot = nullptr;
// the processes of one mpirun execute the same choices together (real MPI)
static bool lockstep = false;
static int ls_rank = 0, ls_size = 1;
static bool claim_slot() {
  return !lockstep || __sync_bool_compare_and_swap(&slot->claim, 0, 1);
}

static void upd_slow() { slow_mode = active && (in_kernel || !pend.empty()); }

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

EXPORT void mc_fail(const char *kind, const char *fmt, ...) {
  static bool failing = false;
  if (failing)
    _exit(43);
  failing = true;
  active = false;
  slow_mode = false;
  char buf[6000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (slot && claim_slot()) {
    snprintf(slot->kind, sizeof slot->kind, "%s", kind);
    snprintf(slot->msg, sizeof slot->msg, "%s [rank %d of %d]%s%.300s%s%s%s", buf,
             lockstep ? ls_rank : cur_rank, lockstep ? ls_size : nranks,
             in_kernel ? " in kernel " : "",
             in_kernel ? cur_kernel : "",
             notes[0] ? "\n  inputs: " : "", notes, "");
    // record the full choice sequence of this execution
    slot->plen = rec.trace.size();
    slot->npre = 0;
    for (size_t i = 0; i < rec.trace.size(); i++)
      if (rec.trace[i].taken && slot->npre < 20000)
        slot->pre[slot->npre++] = {(uint32_t)i, rec.trace[i].taken};
    slot->state = 2;
  }
  if (!slot || verbose) {
    fprintf(stderr, "MC-FAIL %s: %s [rank %d] %s\n inputs: %s\n", kind, buf,
            cur_rank, in_kernel ? cur_kernel : "", notes);
    void *bt[40];
    int n = backtrace(bt, 40);
    backtrace_symbols_fd(bt, n, 2);
  }
  _exit(42);
}

EXPORT void mc_note(const char *fmt, ...) {
  size_t l = strlen(notes);
  if (l > sizeof notes - 300)
    return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(notes + l, 290, fmt, ap);
  va_end(ap);
}
EXPORT mc_device_info *mc_device(void) { return &dev; }
EXPORT void mc_outcome(uint64_t h) {
  outcome ^= h + 0x9e3779b97f4a7c15ull + (outcome << 6) + (outcome >> 2);
  outcome *= 0xff51afd7ed558ccdull;
}
EXPORT void mc_nontrivial(void) { nontriv = true; }
EXPORT int mc_verbose(void) { return verbose; }
EXPORT void mc_set_sched_bound(int d) { sched_bound = d; }
EXPORT void mc_set_item_order(int k) { item_order = k; }
EXPORT void mc_set_rank_order(int k) { rank_order = k; }
EXPORT void mc_set_poison(int b) { poison_byte = b; }
EXPORT void mc_set_send_mode(int s) { mc_send_sync = s; }
EXPORT void mc_race_off(int off) { race_off = off; }
EXPORT void mc_expect_abort(int on) { expect_abort = on; }
EXPORT int mc_abort_count(void) { return abort_count; }
EXPORT int mc_in_kernel(void) { return in_kernel; }
EXPORT int mc_rank(void) { return cur_rank; }
EXPORT int mc_nranks(void) { return nranks; }

void mc_do_abort(int code) {
  abort_count++;
  if (expect_abort)
    throw mc::Aborted{};
  mc_fail("abort", "MPI_Abort(%d): the library's own assertion failed", code);
}

// one node of the choice tree; returns the taken option
static int node(int n, bool sched) {
  if (sched && lockstep)
    return 0; // several processes must see the same sequence of choices
  uint32_t idx = rec.trace.size();
  int t = 0;
  if (prefix_pos < prefix.size() && prefix[prefix_pos].first == idx)
    t = prefix[prefix_pos++].second;
  if (t >= n) {
    if (verbose)
      fprintf(stderr, "choice %u out of range (%d >= %d)\n", idx, t, n);
    t = 0;
  }
  if (rec.trace.size() > 4000000)
    mc_fail("internal", "too many choice points");
  rec.trace.push_back({(uint16_t)std::min(n, 65535), (uint16_t)t,
                       (uint8_t)sched});
  if (sched && t)
    deviations++;
  return t;
}
EXPORT int mc_choose(int n, const char *label) {
  if (n <= 0)
    mc_fail("internal", "choose(%d) %s", n, label);
  int t = 0;
  if (n > 1 && active)
    t = node(n, false);
  mc_note(" %s=%d/%d", label, t, n);
  return t;
}

// ------------------------------------------------------------- access checks
static bool same_or_ordered_cmd(uint32_t c, uint32_t d) {
  // is command c ordered before command d (both submitted, c != d)?
  if (cmds[c].done)
    return true;
  const Cmd &D = cmds[d];
  if (cmds[c].queue == D.queue && D.queue && queues[D.queue].in_order)
    return true;
  for (uint32_t e : D.deps)
    if (e == c || same_or_ordered_cmd(c, e))
      return true;
  return false;
}
static uint32_t cur_actor = 0;
static const char *kname(uint32_t c) {
  static char b[2][400];
  static int k = 0;
  k ^= 1;
  snprintf(b[k], 400, "#%u %.300s", c, cmds[c].name ? cmds[c].name : "?");
  return b[k];
}
static bool actors_race(uint32_t x, uint32_t y, const char **why) {
  if (!x || x == y)
    return false;
  const Actor &a = actors[x], &b = actors[y];
  if (a.cmd == b.cmd) {
    if (a.group == b.group) {
      if (a.item == b.item || a.phase != b.phase)
        return false;
    }
    *why = "two work-items of one kernel";
    return true;
  }
  if (same_or_ordered_cmd(a.cmd, b.cmd))
    return false;
  *why = "two commands in flight without ordering";
  return true;
}
static void report_race(uintptr_t a, size_t n, bool w, uint32_t other,
                        bool other_w, const char *why) {
  const Actor &o = actors[other];
  int kind = (a - ARENA) / ASZ;
  size_t off = 0;
  for (auto &al : allocs[kind])
    if (a >= al.a && a < al.a + al.n) {
      off = a - al.a;
      break;
    }
  uint32_t mycmd = cur_actor ? actors[cur_actor].cmd : 0;
  mc_fail("race",
          "data race (%s): %s of %zu bytes at kind %d offset %zu by %s (group "
          "%u item %u) conflicts with earlier %s by %s (group %u item %u)",
          why, w ? "write" : "read", n, kind, off,
          mycmd ? kname(mycmd) : "host", cur_actor ? actors[cur_actor].group : 0,
          cur_actor ? actors[cur_actor].item : 0, other_w ? "write" : "read",
          kname(o.cmd), o.group, o.item);
}
static const Alloc *find_alloc(uintptr_t a) {
  int kind = (a - ARENA) / ASZ;
  auto &v = allocs[kind];
  auto it = std::upper_bound(v.begin(), v.end(), a,
                             [](uintptr_t x, const Alloc &y) { return x < y.a; });
  if (it == v.begin())
    return nullptr;
  return &*(it - 1);
}
static void bad_addr(uintptr_t a, size_t n, bool w) {
  const Alloc *al = find_alloc(a);
  static const char *kn[] = {"device", "host", "shared", "local", "window"};
  int kind = (a - ARENA) / ASZ;
  if (!al)
    mc_fail("memory", "%s of %zu bytes at unallocated %s memory",
            w ? "write" : "read", n, kn[kind]);
  mc_fail("memory",
          "%s of %zu bytes at offset %td of a %s%s allocation of %zu bytes "
          "(out of bounds or freed)",
          w ? "write" : "read", n, (ptrdiff_t)(a - al->a),
          al->live ? "" : "freed ", kn[kind], al->n);
}
// Two work-items of one kernel storing the same value to one location: the
// hook runs before the store, hence the verdict waits for the next event of
// the work-item.
static struct {
  uintptr_t a = 0;
  uint32_t n = 0, other = 0, actor = 0;
  const char *why = nullptr;
  unsigned char old[16];
} same_w;
static void same_flush() {
  if (!same_w.a)
    return;
  const uintptr_t a = same_w.a;
  same_w.a = 0;
  if (memcmp(same_w.old, (void *)a, same_w.n)) {
    cur_actor = same_w.actor;
    report_race(a, same_w.n, true, same_w.other, true, same_w.why);
  }
}
// access to USM by the current kernel/command actor
static void dev_access(uintptr_t a, size_t n, bool w, bool atomic) {
  const uint8_t ab = atomic ? 16 : 0;
  uintptr_t e = a + n;
  if (same_w.a)
    same_flush();
  for (uintptr_t g = a & ~3ull; g < e; g += 4) {
    Cell *c = cell(g);
    uint8_t m = 15;
    if (g < a)
      m &= 15 << (a - g);
    if (g + 4 > e)
      m &= 15 >> (g + 4 - e);
    if ((c->addr & m) != m)
      bad_addr(a, n, w);
    const char *why;
    if (w) {
      if (c->w != cur_actor) {
        if ((c->wm & m) && !(atomic && (c->wm & 16)) &&
            actors_race(c->w, cur_actor, &why)) {
          if (!in_kernel || atomic || (c->wm & 16) || n > 16 ||
              actors[c->w].cmd != actors[cur_actor].cmd)
            report_race(a, n, w, c->w, true, why);
          if (!same_w.a) {
            same_w.a = a;
            same_w.n = n;
            same_w.other = c->w;
            same_w.actor = cur_actor;
            same_w.why = why;
            memcpy(same_w.old, (void *)a, n);
          }
        }
      }
      if (c->r1 && c->r1 != cur_actor && (c->r1m & m) &&
          !(atomic && (c->r1m & 16)) && actors_race(c->r1, cur_actor, &why))
        report_race(a, n, w, c->r1, false, why);
      if (c->r2 && c->r2 != cur_actor && (c->r2m & m) &&
          !(atomic && (c->r2m & 16)) && actors_race(c->r2, cur_actor, &why))
        report_race(a, n, w, c->r2, false, why);
      if (c->w == cur_actor)
        c->wm = (c->wm & 15) | m | ((c->wm & 16) & ab);
      else {
        c->w = cur_actor;
        c->wm = m | ab;
      }
    } else {
      if (c->w != cur_actor && (c->wm & m) && !(atomic && (c->wm & 16)) &&
          actors_race(c->w, cur_actor, &why))
        report_race(a, n, w, c->w, true, why);
      if (!c->r1 || c->r1 == cur_actor ||
          (actors[c->r1].cmd != actors[cur_actor].cmd &&
           cmds[actors[c->r1].cmd].done)) {
        if (c->r1 == cur_actor)
          c->r1m = (c->r1m & 15) | m | ((c->r1m & 16) & ab);
        else {
          c->r1 = cur_actor;
          c->r1m = m | ab;
        }
      } else {
        if (c->r2 == cur_actor)
          c->r2m = (c->r2m & 15) | m | ((c->r2m & 16) & ab);
        else {
          c->r2 = cur_actor;
          c->r2m = m | ab;
        }
      }
    }
  }
}
static void host_inflight(uint32_t actor, uintptr_t a, size_t n, bool w,
                          bool other_w) {
  const Actor &o = actors[actor];
  if (cmds[o.cmd].done || cmds[o.cmd].rank != cur_rank)
    return;
  const Alloc *al = find_alloc(a);
  mc_fail("race",
          "host %s of %zu bytes at offset %td of an allocation of %zu bytes "
          "while command %s which %s it has not been waited for",
          w ? "write" : "read", n, al ? (ptrdiff_t)(a - al->a) : 0,
          al ? al->n : 0, kname(o.cmd), other_w ? "writes" : "reads");
}
void mc_win_access(uintptr_t a, size_t n, bool w, bool atomic);
static void host_usm(uintptr_t a, size_t n, bool w) {
  int kind = (a - ARENA) / ASZ;
  if (kind == MC_WIN) {
    mc_win_access(a, n, w, false);
    return;
  }
  if (kind == MC_DEVICE || kind == MC_LOCAL)
    mc_fail("memory", "host code %s device memory directly",
            w ? "writes" : "reads");
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~3ull; g < e; g += 4) {
    Cell *c = cell(g);
    uint8_t m = 15;
    if (g < a)
      m &= 15 << (a - g);
    if (g + 4 > e)
      m &= 15 >> (g + 4 - e);
    if ((c->addr & m) != m)
      bad_addr(a, n, w);
    if (c->w && (c->wm & m))
      host_inflight(c->w, a, n, w, true);
    if (w) {
      if (c->r1 && (c->r1m & m))
        host_inflight(c->r1, a, n, w, false);
      if (c->r2 && (c->r2m & m))
        host_inflight(c->r2, a, n, w, false);
    }
  }
  // MPI requests use pend for every kind of memory
}
static void check_pend(uintptr_t a, size_t n, bool w) {
  for (auto &p : pend)
    if (a < p.hi && p.lo < a + n && (w || p.write) && !cmds[p.cmd].done &&
        cmds[p.cmd].rank == cur_rank)
      mc_fail("race",
              "host %s of %zu bytes in a buffer still used by %s (%s) which "
              "has not been waited for",
              w ? "write" : "read", n, kname(p.cmd),
              p.write ? "will be written" : "is being read");
}
// ---- memory of MPI windows: happens-before between ranks by vector clocks
uint32_t mc_vc[64][64];
int mc_rank_order() { return rank_order; }
void mc_vc_join(const std::vector<int> &g) {
  uint32_t m[64] = {};
  for (int r : g)
    for (int i = 0; i < 64; i++)
      m[i] = std::max(m[i], mc_vc[r][i]);
  for (int r : g) {
    memcpy(mc_vc[r], m, sizeof m);
    mc_vc[r][r]++;
  }
}
void mc_win_access(uintptr_t a, size_t n, bool w, bool atomic) {
  if (race_off || !active)
    return;
  const uint32_t me = cur_rank;
  const uint32_t tag = (me + 1) << 24 | (mc_vc[me][me] & 0xffffff);
  uintptr_t e = a + n;
  auto racy = [&](uint32_t x) {
    if (!x)
      return false;
    uint32_t r = (x >> 24) - 1, c = x & 0xffffff;
    return r != me && mc_vc[me][r] < c;
  };
  const uint8_t ab = atomic ? 16 : 0;
  for (uintptr_t g = a & ~3ull; g < e; g += 4) {
    Cell *c = cell(g);
    uint8_t m = 15;
    if (g < a)
      m &= 15 << (a - g);
    if (g + 4 > e)
      m &= 15 >> (g + 4 - e);
    if ((c->addr & m) != m)
      bad_addr(a, n, w);
    if ((c->wm & m) && !(atomic && (c->wm & 16)) && racy(c->w))
      mc_fail("race",
              "unsynchronised access to MPI window memory: %s by rank %u after "
              "a write by rank %u",
              w ? "write" : "read", me, (c->w >> 24) - 1);
    if (w) {
      for (int k = 0; k < 2; k++) {
        uint32_t r = k ? c->r2 : c->r1;
        uint8_t rm = k ? c->r2m : c->r1m;
        if (r && (rm & m) && !(atomic && (rm & 16)) && racy(r))
          mc_fail("race",
                  "unsynchronised access to MPI window memory: write by rank "
                  "%u after a read by rank %u",
                  me, (r >> 24) - 1);
      }
      c->w = tag;
      c->wm = m | ab;
    } else if (!c->r1 || (c->r1 >> 24) == me + 1) {
      c->r1 = tag;
      c->r1m = m | ab;
    } else {
      c->r2 = tag;
      c->r2m = m | ab;
    }
  }
}
struct Seg {
  uintptr_t lo, hi;
};
static std::vector<Seg> segs;
static uintptr_t functor_lo = 0, functor_hi = 0;
static void other_access(uintptr_t a, size_t n, bool w) {
  if (in_kernel) {
    uintptr_t s = (uintptr_t)cur_fiber->stk;
    if (a - s < cur_fiber->sz)
      return;
    if (a >= functor_lo && a < functor_hi) {
      if (w)
        mc_fail("memory", "kernel writes its own captured state");
      return;
    }
    for (auto &g : segs)
      if (a >= g.lo && a < g.hi) {
        if (w)
          mc_fail("memory", "kernel writes host static memory");
        return;
      }
    mc_fail("memory",
            "kernel %s host memory that is not USM (%p, %zu bytes)",
            w ? "writes" : "reads", (void *)a, n);
  }
  if (!pend.empty())
    check_pend(a, n, w);
}
static inline void access(uintptr_t a, size_t n, bool w) {
  if (__builtin_expect(a - ARENA < ATOT, 0)) {
    if (!active || race_off)
      return;
    n_accesses++;
    if (in_kernel)
      dev_access(a, n, w, false);
    else {
      host_usm(a, n, w);
      if (!pend.empty())
        check_pend(a, n, w);
    }
  } else if (__builtin_expect(slow_mode, 0)) {
    if (!race_off)
      other_access(a, n, w);
  }
}
EXPORT void mc_host_access(const void *p, size_t n, int w, const char *what) {
  if (!active || !n)
    return;
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA < ATOT) {
    int kind = (a - ARENA) / ASZ;
    if (kind == MC_DEVICE) {
      const char *e = getenv("NESO_PARTICLES_DEVICE_AWARE_MPI");
      if (!e || (strcmp(e, "ON") && strcmp(e, "1")))
        mc_fail("memory",
                "device memory passed to %s although MPI is not device aware",
                what);
      // device pointer: same in-flight rules as for the host
      uintptr_t en = a + n;
      for (uintptr_t g = a & ~3ull; g < en; g += 4) {
        Cell *c = cell(g);
        uint8_t m = 15;
        if (g < a)
          m &= 15 << (a - g);
        if (g + 4 > en)
          m &= 15 >> (g + 4 - en);
        if ((c->addr & m) != m)
          bad_addr(a, n, w);
        if (c->w)
          host_inflight(c->w, a, n, w, true);
        if (w && c->r1)
          host_inflight(c->r1, a, n, w, false);
        if (w && c->r2)
          host_inflight(c->r2, a, n, w, false);
      }
    } else
      host_usm(a, n, w);
  }
  if (!pend.empty())
    check_pend(a, n, w);
}

// tsan entry points --------------------------------------------------------
#define TS(n, b)                                                               \
  EXPORT void __tsan_read##n(void *p) { access((uintptr_t)p, b, false); }      \
  EXPORT void __tsan_write##n(void *p) { access((uintptr_t)p, b, true); }      \
  EXPORT void __tsan_unaligned_read##n(void *p) {                              \
    access((uintptr_t)p, b, false);                                            \
  }                                                                            \
  EXPORT void __tsan_unaligned_write##n(void *p) {                             \
    access((uintptr_t)p, b, true);                                             \
  }                                                                            \
  EXPORT void __tsan_read_write##n(void *p) { access((uintptr_t)p, b, true); } \
  EXPORT void __tsan_unaligned_read_write##n(void *p) {                        \
    access((uintptr_t)p, b, true);                                             \
  }
TS(1, 1) TS(2, 2) TS(4, 4) TS(8, 8) TS(16, 16)
EXPORT void __tsan_init() {}
EXPORT void __tsan_vptr_read(void *p) { access((uintptr_t)p, 8, false); }
EXPORT void __tsan_vptr_update(void *p, void *) {
  access((uintptr_t)p, 8, true);
}
EXPORT void __tsan_read_range(void *p, size_t n) {
  access((uintptr_t)p, n, false);
}
EXPORT void __tsan_write_range(void *p, size_t n) {
  access((uintptr_t)p, n, true);
}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {
  if (__builtin_expect(!slow_mode || in_kernel, 1))
    return;
  void **fp = (void **)__builtin_frame_address(0);
  uintptr_t lo = (uintptr_t)fp, hi = (uintptr_t)fp[0];
  if (hi < lo || hi - lo > (1u << 20))
    return;
  for (auto &p : pend)
    if (p.lo >= lo && p.lo < hi && !cmds[p.cmd].done)
      mc_fail("race",
              "a function returns while a local variable of it is still used "
              "by %s which has not been waited for",
              kname(p.cmd));
}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) {
    access((uintptr_t)s, n, false);
    access((uintptr_t)d, n, true);
  }
  return memmove(d, s, n);
}
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) {
  return __tsan_memcpy(d, s, n);
}
EXPORT void *__tsan_memset(void *d, int c, size_t n) {
  if (n)
    access((uintptr_t)d, n, true);
  return memset(d, c, n);
}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}

// host heap: freeing memory still in use by an asynchronous operation
EXPORT void mc_check_delete(void *p, size_t n) {
  if (slow_mode && !in_kernel && !pend.empty() && p) {
    uintptr_t a = (uintptr_t)p;
    for (auto &q : pend)
      if (a < q.hi && q.lo < a + n && !cmds[q.cmd].done &&
          cmds[q.cmd].rank == cur_rank)
        mc_fail("race",
                "host memory is freed while still used by %s which has not "
                "been waited for",
                kname(q.cmd));
  }
}

// ------------------------------------------------------------------ USM
EXPORT void *mc_alloc(size_t n, int kind, size_t align) {
  if (align < 64)
    align = 64;
  size_t b = (bump[kind] + 64 + align - 1) / align * align;
  size_t end = b + (n + 3) / 4 * 4;
  if (end + 128 > ASZ)
    mc_fail("internal", "USM arena %d exhausted (request %zu)", kind, n);
  bump[kind] = end;
  uintptr_t a = ARENA + kind * ASZ + b;
  allocs[kind].push_back({a, n, kind, cur_rank, true});
  for (size_t o = 0; o < n; o += 4) {
    Cell *c = cell(a + o);
    *c = Cell{};
    c->addr = n - o >= 4 ? 15 : (15 >> (4 - (n - o)));
  }
  memset((void *)a, poison_byte, n);
  return (void *)a;
}
EXPORT void mc_free(void *p) {
  if (!p)
    return;
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA >= ATOT)
    mc_fail("memory", "sycl::free of a pointer which is not USM");
  int kind = (a - ARENA) / ASZ;
  auto &v = allocs[kind];
  auto it = std::lower_bound(v.begin(), v.end(), a,
                             [](const Alloc &y, uintptr_t x) { return y.a < x; });
  if (it == v.end() || it->a != a)
    mc_fail("memory", "sycl::free of a pointer inside an allocation");
  if (!it->live)
    mc_fail("memory", "double sycl::free");
  for (size_t o = 0; o < it->n; o += 4) {
    Cell *c = cell(a + o);
    if (kind == MC_WIN) {
      c->addr = 0;
      continue;
    }
    if (c->w && !cmds[actors[c->w].cmd].done)
      mc_fail("race", "memory freed while in use by unwaited command %s",
              kname(actors[c->w].cmd));
    if (c->r1 && !cmds[actors[c->r1].cmd].done)
      mc_fail("race", "memory freed while in use by unwaited command %s",
              kname(actors[c->r1].cmd));
    if (c->r2 && !cmds[actors[c->r2].cmd].done)
      mc_fail("race", "memory freed while in use by unwaited command %s",
              kname(actors[c->r2].cmd));
    c->addr = 0;
  }
  for (auto &q : pend)
    if (a < q.hi && q.lo < a + it->n && !cmds[q.cmd].done)
      mc_fail("race", "memory freed while in use by %s", kname(q.cmd));
  memset(p, 0xDD, it->n);
  it->live = false;
}
EXPORT int mc_usm_kind(const void *p) {
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA >= ATOT)
    return -1;
  return (a - ARENA) / ASZ;
}
EXPORT size_t mc_usm_size(const void *p) {
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA >= ATOT)
    return 0;
  const Alloc *al = find_alloc(a);
  return al && al->live && a < al->a + al->n ? al->a + al->n - a : 0;
}

// ------------------------------------------------------------------ commands
EXPORT uint32_t mc_queue_create(int in_order) {
  if (queues.empty())
    queues.push_back({});
  queues.push_back({(bool)in_order, cur_rank, {}, 0});
  return queues.size() - 1;
}
static void prune_pend() {
  size_t j = 0;
  for (size_t i = 0; i < pend.size(); i++)
    if (!cmds[pend[i].cmd].done)
      pend[j++] = pend[i];
  pend.resize(j);
  upd_slow();
}
static uint32_t new_cmd(uint32_t q, const char *name, const uint32_t *deps,
                        size_t nd) {
  if (cmds.empty())
    cmds.push_back({});
  Cmd c;
  c.queue = q;
  c.rank = cur_rank;
  c.done = false;
  c.mpi = false;
  c.name = name;
  for (size_t i = 0; i < nd; i++)
    if (deps[i])
      c.deps.push_back(deps[i]);
  cmds.push_back(std::move(c));
  uint32_t id = cmds.size() - 1;
  if (q)
    queues[q].inflight.push_back(id);
  return id;
}
static uint32_t new_actor(uint32_t cmd, uint32_t group, uint32_t item,
                          uint32_t phase) {
  if (actors.empty())
    actors.push_back({});
  actors.push_back({cmd, group, item, phase});
  return actors.size() - 1;
}
static void finish_cmd(uint32_t c) {
  if (!c || c >= cmds.size() || cmds[c].done)
    return;
  cmds[c].done = true;
  for (uint32_t d : cmds[c].deps)
    finish_cmd(d);
  if (cmds[c].queue && queues[cmds[c].queue].in_order)
    for (uint32_t d : queues[cmds[c].queue].inflight)
      if (d < c)
        finish_cmd(d);
}
EXPORT void mc_event_wait(uint32_t c) {
  if (in_kernel)
    mc_fail("sycl", "event wait inside a kernel");
  finish_cmd(c);
  if (!pend.empty())
    prune_pend();
}
EXPORT void mc_queue_wait(uint32_t q) {
  if (q < queues.size()) {
    for (uint32_t c : queues[q].inflight)
      finish_cmd(c);
    queues[q].inflight.clear();
  }
  if (!pend.empty())
    prune_pend();
}
static void cmd_range(uint32_t cmd, const void *p, size_t n, bool w,
                      const char *what) {
  uintptr_t a = (uintptr_t)p;
  if (!n)
    return;
  if (a - ARENA < ATOT) {
    dev_access(a, n, w, false);
    // pending MPI requests on USM memory
    for (auto &q : pend)
      if (a < q.hi && q.lo < a + n && (w || q.write) && !cmds[q.cmd].done &&
          cmds[q.cmd].mpi && cmds[q.cmd].rank == cur_rank)
        mc_fail("race", "%s overlaps a buffer in use by %s", what,
                kname(q.cmd));
  } else {
    for (auto &q : pend)
      if (a < q.hi && q.lo < a + n && (w || q.write) && !cmds[q.cmd].done &&
          q.cmd != cmd && cmds[q.cmd].rank == cur_rank &&
          !same_or_ordered_cmd(q.cmd, cmd))
        mc_fail("race", "%s overlaps host memory in use by %s", what,
                kname(q.cmd));
    pend.push_back({a, a + n, w, cmd});
  }
}
EXPORT uint32_t mc_cmd_memcpy(uint32_t q, void *d, const void *s, size_t n,
                              const uint32_t *deps, size_t nd) {
  if (!active) {
    memmove(d, s, n);
    return 0;
  }
  if (in_kernel)
    mc_fail("sycl", "queue::memcpy inside a kernel");
  uint32_t c = new_cmd(q, "memcpy", deps, nd);
  if (n) {
    if (!d || !s)
      mc_fail("memory", "memcpy of %zu bytes with a null pointer", n);
    uintptr_t x = (uintptr_t)d, y = (uintptr_t)s;
    if (x < y + n && y < x + n)
      mc_fail("memory", "queue::memcpy with overlapping ranges");
    cur_actor = new_actor(c, 0, 0, 0);
    if (!race_off) {
      cmd_range(c, s, n, false, "memcpy source");
      cmd_range(c, d, n, true, "memcpy destination");
    }
    memmove(d, s, n);
    cur_actor = 0;
    upd_slow();
  }
  return c;
}
EXPORT uint32_t mc_cmd_fill(uint32_t q, void *d, const void *pat, size_t ps,
                            size_t count) {
  uint32_t c = new_cmd(q, "fill", nullptr, 0);
  if (count) {
    if (!d)
      mc_fail("memory", "fill of a null pointer");
    cur_actor = new_actor(c, 0, 0, 0);
    if (active && !race_off)
      cmd_range(c, d, ps * count, true, "fill destination");
    char tmp[64];
    memcpy(tmp, pat, std::min<size_t>(ps, 64));
    for (size_t i = 0; i < count; i++)
      memcpy((char *)d + i * ps, tmp, ps);
    cur_actor = 0;
    upd_slow();
  }
  return c;
}
EXPORT uint32_t mc_pending_begin(void *p, size_t n, int w, const char *what) {
  uint32_t c = new_cmd(0, what, nullptr, 0);
  cmds[c].mpi = true;
  if (n) {
    mc_host_access(p, n, w, what);
    pend.push_back({(uintptr_t)p, (uintptr_t)p + n, (bool)w, c});
    upd_slow();
  }
  return c;
}
EXPORT void mc_pending_end(uint32_t c) {
  if (c)
    cmds[c].done = true;
  prune_pend();
}

// ------------------------------------------------------------------ kernels
enum { NOT_STARTED, READY, AT_BARRIER, FINISHED };
struct Item {
  uint8_t st;
  uint32_t actor;
  Fiber *f;
  uint64_t gran; // granule of the pending atomic
  int bkind;
};
struct Group {
  uint32_t phase, at_barrier, finished;
  char *local;
  std::vector<char> scratch;
};
struct AEv {
  uint32_t node; // index in trace or ~0
  uint32_t item;
  uint64_t gran;
  uint32_t phase;
};
struct Launch {
  const mc_launch_desc *d;
  uint32_t cmd;
  size_t n, local;
  size_t local_bytes;
  std::vector<Item> items;
  std::vector<Group> groups;
  std::vector<AEv> ev;
  std::vector<uint32_t> nodes;
  size_t cur;
  long forced;
  size_t alive, started;
  std::vector<uint32_t> ready; // parked items
  Fiber *sched;
};
static Launch *L = nullptr;
static std::vector<Fiber *> free_fibers;
static size_t next_local_bytes = 0;
EXPORT void mc_next_local_bytes(size_t n) { next_local_bytes = n; }

static void item_body(void *) {
  for (;;) {
    Launch *l = L;
    size_t i = l->cur;
    if (l->local)
      l->d->fn(l->d->f, i / l->local, i % l->local);
    else
      l->d->fn(l->d->f, i, 0);
    l->items[i].st = FINISHED;
    fiber_switch(l->sched);
  }
}
static inline size_t group_of(Launch *l, size_t i) {
  return l->local ? i / l->local : i;
}
static void resume(Launch *l, size_t i) {
  Item &it = l->items[i];
  size_t g = group_of(l, i);
  if (it.st == NOT_STARTED) {
    if (free_fibers.empty()) {
      Fiber *f = fiber_new(192 * 1024);
      fiber_prepare(f, item_body, nullptr);
      free_fibers.push_back(f);
    }
    it.f = free_fibers.back();
    free_fibers.pop_back();
    it.actor = new_actor(l->cmd, g, i, l->groups.empty() ? 0 : l->groups[g].phase);
    l->started++;
    n_items++;
    if (l->local_bytes && !l->groups[g].local)
      l->groups[g].local = (char *)mc_alloc(l->local_bytes, MC_LOCAL, 64);
  } else if (it.st == READY) {
    for (size_t k = 0; k < l->ready.size(); k++)
      if (l->ready[k] == i) {
        l->ready[k] = l->ready.back();
        l->ready.pop_back();
        break;
      }
  }
  l->cur = i;
  cur_actor = it.actor;
  in_kernel = 1;
  slow_mode = active;
  it.st = READY + 10;
  fiber_switch(it.f);
  in_kernel = 0;
  same_flush();
  cur_actor = 0;
  if (it.st == FINISHED) {
    free_fibers.push_back(it.f);
    it.f = nullptr;
    l->alive--;
    if (l->local) {
      Group &G = l->groups[g];
      G.finished++;
      if (G.at_barrier && G.at_barrier + G.finished == l->local)
        mc_fail("barrier",
                "work-group barrier not reached by all work-items of group "
                "%zu (%u finished, %u waiting)",
                g, G.finished, G.at_barrier);
    }
  }
}
static bool enabled(Launch *l, size_t i) {
  return l->items[i].st == NOT_STARTED || l->items[i].st == READY;
}
EXPORT char *mc_local_base(void) {
  if (!L || !in_kernel)
    return nullptr;
  return L->groups[group_of(L, L->cur)].local;
}
EXPORT void *mc_group_scratch(size_t b) {
  Group &G = L->groups[group_of(L, L->cur)];
  if (G.scratch.size() < b)
    G.scratch.resize(b);
  return G.scratch.data();
}
EXPORT void mc_group_barrier(int kind) {
  if (!L || !in_kernel || !L->local)
    mc_fail("sycl", "barrier outside an nd_range kernel");
  Launch *l = L;
  size_t i = l->cur, g = group_of(l, i);
  Group &G = l->groups[g];
  Item &it = l->items[i];
  it.bkind = kind;
  G.at_barrier++;
  if (G.at_barrier + G.finished == l->local && G.finished)
    mc_fail("barrier",
            "work-group barrier not reached by all work-items of group %zu", g);
  if (G.at_barrier == l->local) {
    G.phase++;
    G.at_barrier = 0;
    for (size_t k = g * l->local; k < (g + 1) * l->local; k++) {
      if (l->items[k].bkind != kind)
        mc_fail("barrier", "work-items of group %zu meet at different barriers",
                g);
      l->items[k].actor = new_actor(l->cmd, g, k, G.phase);
      if (k != i) {
        l->items[k].st = READY;
        l->items[k].gran = 0;
        l->ready.push_back(k);
      }
    }
    // everyone continues; keep running in default order: lowest id first
    it.st = READY;
    l->ready.push_back(i);
    fiber_switch(l->sched);
  } else {
    it.st = AT_BARRIER;
    fiber_switch(l->sched);
  }
}
EXPORT void mc_atomic(void *p, size_t n, int rmw) {
  if (!active)
    return;
  n_atomics++;
  uintptr_t a = (uintptr_t)p;
  if (!in_kernel) {
    access(a, n, rmw);
    return;
  }
  Launch *l = L;
  size_t i = l->cur;
  if (a - ARENA < ATOT) {
    if (l->alive > 1) {
      uint32_t g = group_of(l, i);
      uint32_t nd = ~0u;
      int t = 0;
      // a node of the tree only where the explorer may branch
      if (sched_bound > 0) {
        nd = rec.trace.size();
        t = node((int)std::min<size_t>(l->n + 1, 65535), true);
        l->nodes.push_back(nd);
      }
      l->ev.push_back({nd, (uint32_t)i, (uint64_t)(a >> 2),
                       l->local ? l->groups[g].phase : 0});
      bool sw = false;
      if (t > 0) {
        size_t q = t - 1;
        if (q != i && q < l->n && enabled(l, q)) {
          l->forced = q;
          sw = true;
        }
      } else if (item_order == 2 && l->ready.size() < 300) {
        sw = true;
        l->forced = -2;
      }
      if (sw) {
        l->items[i].st = READY;
        l->items[i].gran = a >> 2;
        l->ready.push_back(i);
        fiber_switch(l->sched);
        // the event order recorded is the order of execution: re-record
        if (nd == ~0u || t > 0)
          l->ev.push_back({~0u, (uint32_t)i, (uint64_t)(a >> 2),
                           l->local ? l->groups[g].phase : 0});
      }
    }
    if (!race_off)
      dev_access(a, n, rmw, true);
  } else
    other_access(a, n, rmw);
}

EXPORT uint32_t mc_launch(uint32_t q, const mc_launch_desc *d) {
  size_t lb = next_local_bytes;
  next_local_bytes = 0;
  if (in_kernel)
    mc_fail("sycl", "kernel launched from a kernel");
  if (!active)
    mc_fail("internal", "kernel launched outside an execution");
  if (lb > dev.local_mem_size)
    mc_fail("sycl",
            "kernel requests %zu bytes of local memory, the device has %zu", lb,
            dev.local_mem_size);
  uint32_t c = new_cmd(q, d->name, d->deps, d->ndeps);
  n_launches++;
  const size_t bump0 = bump[MC_LOCAL];
  Launch l;
  l.d = d;
  l.cmd = c;
  l.local = d->local;
  l.n = d->ngroups * (d->local ? d->local : 1);
  l.local_bytes = lb;
  l.forced = -1;
  l.alive = l.n;
  l.started = 0;
  l.sched = cur_fiber;
  if (l.n == 0)
    return c;
  if (l.n > 50000000)
    mc_fail("internal", "launch of %zu work-items is too large", l.n);
  l.items.assign(l.n, Item{});
  if (l.local)
    l.groups.resize(d->ngroups);
  const char *old = cur_kernel;
  cur_kernel = d->name;
  functor_lo = (uintptr_t)d->f;
  functor_hi = functor_lo + d->fsize;
  L = &l;
  size_t next = item_order == 1 ? l.n - 1 : 0; // first not started
  size_t last = 0;
  auto advance = [&]() {
    if (item_order == 1) {
      while (next < l.n && l.items[next].st != NOT_STARTED)
        next--; // wraps to huge when exhausted
    } else
      while (next < l.n && l.items[next].st != NOT_STARTED)
        next++;
  };
  while (l.alive) {
    size_t pick = (size_t)-1;
    if (l.forced >= 0) {
      pick = l.forced;
      l.forced = -1;
    } else {
      advance();
      bool rr = l.forced == -2;
      l.forced = -1;
      bool can_start = next < l.n;
      // items that passed a barrier / were preempted come first within the
      // current group; otherwise start a new one
      if (!l.ready.empty()) {
        size_t best = (size_t)-1;
        if (rr || item_order == 2) {
          // cyclic successor among ready + not started
          for (uint32_t r : l.ready)
            if (r > last && (best == (size_t)-1 || r < best))
              best = r;
          if (can_start && next > last && (best == (size_t)-1 || next < best))
            best = next;
          if (best == (size_t)-1) {
            for (uint32_t r : l.ready)
              if (best == (size_t)-1 || r < best)
                best = r;
            if (can_start && next < best)
              best = next;
          }
        } else if (item_order == 1) {
          for (uint32_t r : l.ready)
            if (best == (size_t)-1 || r > best)
              best = r;
        } else {
          for (uint32_t r : l.ready)
            if (r < best)
              best = r;
        }
        pick = best;
      } else if (can_start)
        pick = next;
    }
    if (pick == (size_t)-1 || !enabled(&l, pick))
      mc_fail("barrier", "work-items are blocked at a barrier forever");
    last = pick;
    resume(&l, pick);
  }
  // conflict sets: which preemptions could change the order of atomics
  if (!l.nodes.empty() && deviations < sched_bound) {
    // per granule: list of (event index)
    std::unordered_map<uint64_t, std::vector<uint32_t>> by;
    for (size_t e = 0; e < l.ev.size(); e++)
      by[l.ev[e].gran].push_back(e);
    for (auto &kv : by) {
      auto &v = kv.second;
      for (size_t x = 0; x < v.size(); x++) {
        const AEv &e = l.ev[v[x]];
        if (e.node == ~0u || e.node < prefix_len)
          continue;
        std::vector<uint16_t> alt;
        for (size_t y = x + 1; y < v.size(); y++) {
          const AEv &o = l.ev[v[y]];
          if (o.item == e.item || o.item >= 65534)
            continue;
          if (group_of(&l, o.item) == group_of(&l, e.item) &&
              o.phase != e.phase)
            continue;
          uint16_t k = o.item + 1;
          if (std::find(alt.begin(), alt.end(), k) == alt.end())
            alt.push_back(k);
        }
        if (!alt.empty())
          rec.alts.push_back({e.node, alt});
      }
    }
  }
  if (l.local_bytes) { // work-group memory lives as long as its kernel
    for (auto &al : allocs[MC_LOCAL])
      for (size_t o = 0; o < al.n; o += 4)
        cell(al.a + o)->addr = 0;
    allocs[MC_LOCAL].clear();
    bump[MC_LOCAL] = bump0;
  }
  L = nullptr;
  cur_kernel = old;
  functor_lo = functor_hi = 0;
  upd_slow();
  return c;
}

// ------------------------------------------------------------------ ranks
enum { R_NEW, R_RUN, R_BLOCK, R_DONE };
struct Rank {
  Fiber *f = nullptr;
  int st = R_NEW;
  int (*pred)(void *) = nullptr;
  void *parg = nullptr;
  const char *what = "";
};
static std::vector<Rank> rk;
static Fiber *rank_sched = nullptr;
static mc_rank_fn rank_fn;
static void *rank_arg;
static long rank_forced = -1;
struct REv {
  uint32_t node;
  int rank;
  uint64_t obj;
};
static std::vector<REv> rev;
static std::vector<Fiber *> rank_fibers;

static void rank_body(void *a) {
  for (;;) {
    int r = cur_fiber->rank;
    try {
      rank_fn(rank_arg, r);
    } catch (mc::Aborted &) {
      mc_fail("abort", "abort escaped the harness");
    } catch (std::exception &e) {
      mc_fail("exception", "uncaught exception: %s", e.what());
    } catch (...) {
      mc_fail("exception", "uncaught exception");
    }
    rk[r].st = R_DONE;
    fiber_switch(rank_sched);
  }
  (void)a;
}
EXPORT void mc_block(int (*pred)(void *), void *arg, const char *what) {
  if (pred(arg))
    return;
  if (in_kernel)
    mc_fail("mpi", "blocking MPI call in a kernel");
  if (!rank_sched)
    mc_fail("deadlock", "single rank blocks forever in %s", what);
  Rank &r = rk[cur_rank];
  r.st = R_BLOCK;
  r.pred = pred;
  r.parg = arg;
  r.what = what;
  fiber_switch(rank_sched);
}
static bool rank_ready(int i) {
  return rk[i].st == R_NEW || rk[i].st == R_RUN ||
         (rk[i].st == R_BLOCK && rk[i].pred(rk[i].parg));
}
EXPORT void mc_rank_point(uint64_t obj, const char *what) {
  if (!rank_sched || !active)
    return;
  uint32_t nd = ~0u;
  int t = 0;
  if (sched_bound > 0) {
    nd = rec.trace.size();
    t = node(nranks + 1, true);
  }
  rev.push_back({nd, cur_rank, obj});
  if (t > 0 && t - 1 != cur_rank && rank_ready(t - 1)) {
    rank_forced = t - 1;
    rk[cur_rank].st = R_RUN;
    rk[cur_rank].what = what;
    fiber_switch(rank_sched);
    rev.push_back({~0u, cur_rank, obj});
  }
}
struct Discard {};
static bool discard_flag_get();
EXPORT void mc_run_ranks(int n, mc_rank_fn fn, void *arg) {
  nranks = n;
  mpi_begin(n);
  rk.assign(n, Rank{});
  rank_fn = fn;
  rank_arg = arg;
  rank_sched = cur_fiber;
  rank_forced = -1;
  rev.clear();
  while ((int)rank_fibers.size() < n) {
    Fiber *f = fiber_new(8u << 20);
    f->rank = rank_fibers.size();
    rank_fibers.push_back(f);
  }
  for (int i = 0; i < n; i++) {
    fiber_prepare(rank_fibers[i], rank_body, nullptr);
    rk[i].f = rank_fibers[i];
  }
  int last = -1;
  for (;;) {
    int pick = -1;
    bool alld = true;
    for (int k = 0; k < n; k++)
      if (rk[k].st != R_DONE)
        alld = false;
    if (alld)
      break;
    if (rank_forced >= 0) {
      pick = rank_forced;
      rank_forced = -1;
    } else {
      for (int k = 0; k < n; k++) {
        int i = rank_order == 1 ? n - 1 - k
                : rank_order == 2 ? (last + 1 + k + n) % n
                                  : k;
        if (rank_ready(i)) {
          pick = i;
          break;
        }
      }
    }
    if (pick < 0) {
      if (mpi_quiesce())
        continue;
      std::string s;
      for (int i = 0; i < n; i++)
        s += " rank" + std::to_string(i) + ":" +
             (rk[i].st == R_DONE ? "finished" : rk[i].what);
      mc_fail("deadlock", "all ranks blocked:%s", s.c_str());
    }
    last = pick;
    rk[pick].st = R_RUN;
    cur_rank = pick;
    fiber_switch(rk[pick].f);
    cur_rank = 0;
    if (discard_flag_get()) {
      rank_sched = nullptr;
      nranks = 1;
      throw Discard{};
    }
  }
  if (deviations < sched_bound) {
    for (size_t x = 0; x < rev.size(); x++) {
      if (rev[x].node == ~0u || rev[x].node < prefix_len)
        continue;
      std::vector<uint16_t> alt;
      for (size_t y = x + 1; y < rev.size(); y++)
        if (rev[y].rank != rev[x].rank && rev[y].obj == rev[x].obj) {
          uint16_t k = rev[y].rank + 1;
          if (std::find(alt.begin(), alt.end(), k) == alt.end())
            alt.push_back(k);
        }
      if (!alt.empty())
        rec.alts.push_back({rev[x].node, alt});
    }
  }
  rank_sched = nullptr;
  mpi_end();
  cur_rank = 0;
  nranks = 1;
}
EXPORT int mc_choose_mpi(int n) { return active ? node(n, false) : 0; }

// ------------------------------------------------------------------ executions
static int find_segs(dl_phdr_info *info, size_t, void *) {
  for (int i = 0; i < info->dlpi_phnum; i++) {
    auto &p = info->dlpi_phdr[i];
    if (p.p_type == PT_LOAD)
      segs.push_back({info->dlpi_addr + p.p_vaddr,
                      info->dlpi_addr + p.p_vaddr + p.p_memsz});
  }
  return 0;
}
static void init_memory() {
  static bool done = false;
  if (done)
    return;
  done = true;
  void *p = mmap((void *)ARENA, ATOT, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  void *s = mmap((void *)SHADOW, ATOT / 4 * sizeof(Cell),
                 PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     MAP_FIXED_NOREPLACE,
                 -1, 0);
  if (p != (void *)ARENA || s != (void *)SHADOW) {
    fprintf(stderr, "mc: cannot reserve memory\n");
    _exit(99);
  }
  dl_iterate_phdr(find_segs, nullptr);
  actors.reserve(1 << 20);
  cmds.reserve(1 << 14);
}
// bytes of non-addressable shadow left from the previous execution
static void reset_execution() {
  for (int k = 0; k < NAR; k++) {
    if (bump[k]) {
      uintptr_t lo = (uintptr_t)cell(ARENA + k * ASZ);
      size_t n = (bump[k] / 4 + 1) * sizeof(Cell);
      if (n > (4u << 20)) {
        madvise((void *)lo, (n + 4095) & ~4095ull, MADV_DONTNEED);
        madvise((void *)(ARENA + k * ASZ), (bump[k] + 4095) & ~4095ull,
                MADV_DONTNEED);
      } else
        memset((void *)lo, 0, n);
    }
    bump[k] = 0;
    allocs[k].clear();
  }
  cmds.clear();
  actors.clear();
  cmds.push_back({});
  actors.push_back({});
  pend.clear();
  queues.clear();
  queues.push_back({});
  rec.trace.clear();
  rec.alts.clear();
  prefix_pos = 0;
  deviations = 0;
  mpi_reset();
  mpi_begin(1);
  sched_bound = 0;
  item_order = 0;
  rank_order = 0;
  poison_byte = 0xCD;
  mc_send_sync = 1;
  expect_abort = 0;
  abort_count = 0;
  outcome = 0x1234567;
  nontriv = false;
  notes[0] = 0;
  cur_rank = 0;
  nranks = 1;
  cur_actor = 0;
  same_w.a = 0;
  in_kernel = 0;
  race_off = false;
  dev = dev_default;
  static const char *envs[] = {"NESO_PARTICLES_LOOP_LOCAL_SIZE",
                               "NESO_PARTICLES_LOOP_NBIN",
                               "NESO_PARTICLES_IN_ORDER_QUEUE",
                               "NESO_PARTICLES_DEVICE_AWARE_MPI",
                               "NESO_PARTICLES_MAX_COMPUTE_UNITS",
                               "NESO_PARTICLES_DEVICE_LIMIT_LOCAL_MEM_SIZE",
                               "NESO_PARTICLES_DEVICE_LIMIT_WORK_GROUP_SIZE",
                               "NESO_PARTICLES_DEBUG_SUB_GROUPS",
                               "OMP_NUM_THREADS",
                               nullptr};
  for (int i = 0; envs[i]; i++)
    unsetenv(envs[i]);
}
static bool discard_flag;
EXPORT void mc_discard(void) {
  if (rank_sched && cur_fiber != rank_sched) {
    // abandon the ranks' stacks: their memory belongs to the execution
    discard_flag = true;
    fiber_switch(rank_sched);
  }
  throw Discard{};
}

static bool discard_flag_get() {
  bool f = discard_flag;
  discard_flag = false;
  return f;
}
typedef std::vector<std::pair<uint32_t, uint16_t>> Prefix;
struct Job {
  int sc;
  uint32_t len;
  uint32_t skip = 0;
  Prefix p;
};
struct Stats {
  uint64_t execs = 0, nodes = 0, discarded = 0, nontrivial = 0, atomics = 0,
           launches = 0, items = 0, accesses = 0, sched_execs = 0,
           max_trace = 0;
};
static const mc_scenario *scen;
static int nscen;
static Stats st;
static std::vector<std::pair<uint8_t, uint64_t>> outs; // (scenario, outcome)
extern "C" __attribute__((visibility("default"))) int mc_tier = 0;
extern "C" __attribute__((visibility("default"))) int mc_get_tier() {
  return mc_tier;
}

static void fill_slot(const Job &j) {
  slot->scenario = j.sc;
  slot->plen = j.len;
  slot->npre = std::min<size_t>(j.p.size(), 20000);
  for (uint32_t i = 0; i < slot->npre; i++)
    slot->pre[i] = {j.p[i].first, j.p[i].second};
  slot->t0 = now();
  slot->state = 1;
}
static bool uncaught_exec(const Job &j) {
  bool disc = false;
  try {
    scen[j.sc].fn();
  } catch (Discard &) {
    disc = true;
  } catch (mc::Aborted &) {
    mc_fail("abort", "abort escaped the harness");
  } catch (std::exception &e) {
    mc_fail("exception", "uncaught exception: %s", e.what());
  }
  return disc;
}
static void run_one(const Job &j) {
  reset_execution();
  prefix = j.p;
  prefix_len = j.len;
  if (slot && !lockstep)
    fill_slot(j);
  active = true;
  upd_slow();
  bool disc = uncaught_exec(j);
  active = false;
  upd_slow();
  st.execs++;
  if (slot && ls_rank == 0)
    slot->execs++;
  if (disc) {
    st.discarded++;
  } else {
    if (nontriv)
      st.nontrivial++;
    outs.push_back({(uint8_t)j.sc, outcome});
  }
  if (deviations)
    st.sched_execs++;
  if (rec.trace.size() > j.len)
    st.nodes += rec.trace.size() - j.len;
  st.max_trace = std::max<uint64_t>(st.max_trace, rec.trace.size());
  st.atomics += n_atomics;
  st.launches += n_launches;
  st.items += n_items;
  st.accesses += n_accesses;
  n_atomics = n_launches = n_items = n_accesses = 0;
}
// children of the execution just run
static void children(const Job &j, std::vector<Job> &out) {
  // sparse view of the trace
  Prefix cum;
  std::vector<std::pair<uint32_t, std::vector<uint16_t>>> alts;
  alts.swap(rec.alts);
  std::sort(alts.begin(), alts.end(),
            [](auto &a, auto &b) { return a.first < b.first; });
  size_t ai = 0;
  size_t first = out.size();
  for (uint32_t i = 0; i < rec.trace.size(); i++) {
    const Ch &c = rec.trace[i];
    if (i >= j.len) {
      if (!c.sched) {
        for (uint16_t a = 0; a < c.n; a++)
          if (a != c.taken) {
            Job k;
            k.sc = j.sc;
            k.len = i + 1;
            k.p = cum;
            if (a)
              k.p.push_back({i, a});
            out.push_back(std::move(k));
          }
      } else {
        while (ai < alts.size() && alts[ai].first < i)
          ai++;
        if (ai < alts.size() && alts[ai].first == i && c.taken == 0)
          for (uint16_t a : alts[ai].second) {
            Job k;
            k.sc = j.sc;
            k.len = i + 1;
            k.p = cum;
            k.p.push_back({i, a});
            out.push_back(std::move(k));
          }
      }
    }
    if (c.taken)
      cum.push_back({i, c.taken});
  }
  std::reverse(out.begin() + first, out.end());
}

// ---- worker/master protocol: length prefixed blobs over a socketpair
static void wr(int fd, const void *p, size_t n) {
  const char *c = (const char *)p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) {
      if (errno == EINTR)
        continue;
      _exit(1);
    }
    c += k;
    n -= k;
  }
}
static bool rd(int fd, void *p, size_t n) {
  char *c = (char *)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) {
      if (k < 0 && errno == EINTR)
        continue;
      return false;
    }
    c += k;
    n -= k;
  }
  return true;
}
static void put_job(std::string &s, const Job &j) {
  uint32_t h[3] = {(uint32_t)j.sc, j.len, (uint32_t)j.p.size()};
  s.append((char *)h, 12);
  for (auto &x : j.p) {
    uint32_t v[2] = {x.first, x.second};
    s.append((char *)v, 8);
  }
}
static Job get_job(const char *&p) {
  uint32_t h[3];
  memcpy(h, p, 12);
  p += 12;
  Job j;
  j.sc = h[0];
  j.len = h[1];
  j.p.resize(h[2]);
  for (uint32_t i = 0; i < h[2]; i++) {
    uint32_t v[2];
    memcpy(v, p, 8);
    p += 8;
    j.p[i] = {v[0], (uint16_t)v[1]};
  }
  return j;
}
static void crash_handler(int sig, siginfo_t *si, void *) {
  if (slot && slot->state == 1 && claim_slot()) {
    snprintf(slot->kind, sizeof slot->kind, "crash");
    snprintf(slot->msg, sizeof slot->msg,
             "signal %d (address %p)%s%.300s [rank %d of %d]\n  inputs: %.3000s",
             sig, si->si_addr, in_kernel ? " in kernel " : "",
             in_kernel ? cur_kernel : "", cur_rank, nranks, notes);
    slot->plen = rec.trace.size();
    slot->npre = 0;
    for (size_t i = 0; i < rec.trace.size(); i++)
      if (rec.trace[i].taken && slot->npre < 20000)
        slot->pre[slot->npre++] = {(uint32_t)i, rec.trace[i].taken};
    slot->state = 2;
  }
  if (verbose) {
    void *bt[60];
    int n = backtrace(bt, 60);
    backtrace_symbols_fd(bt, n, 2);
  }
  _exit(44);
}
static void install_handlers() {
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = crash_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT})
    sigaction(s, &sa, nullptr);
}
static void worker(int fd, Slot *s) {
  slot = s;
  install_handlers();
  init_memory();
  if (!verbose) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
  }
  for (;;) {
    uint32_t hdr[2]; // bytes, batch
    if (!rd(fd, hdr, 8))
      _exit(0);
    std::string in(hdr[0], 0);
    rd(fd, &in[0], hdr[0]);
    const char *p = in.data();
    std::vector<Job> stack;
    while (p < in.data() + in.size())
      stack.push_back(get_job(p));
    st = Stats{};
    outs.clear();
    double t0 = now();
    uint32_t k = 0;
    while (!stack.empty() && k < hdr[1] && (k == 0 || now() - t0 < 0.3)) {
      Job j = std::move(stack.back());
      stack.pop_back();
      run_one(j);
      children(j, stack);
      k++;
    }
    std::string o;
    o.append((char *)&st, sizeof st);
    uint32_t no = outs.size();
    o.append((char *)&no, 4);
    for (auto &x : outs) {
      o.append((char *)&x.first, 1);
      o.append((char *)&x.second, 8);
    }
    for (auto &j : stack)
      put_job(o, j);
    slot->state = 3;
    uint32_t n = o.size();
    wr(fd, &n, 4);
    wr(fd, o.data(), n);
  }
}
struct W {
  pid_t pid = 0;
  int fd = -1;
  Slot *slot = nullptr;
  bool busy = false;
  std::string slotfile;
  std::string given; // the jobs it is working on
};
#ifdef MC_REALMPI
#include "group.h"
#else
static void make_slot(W &w) {
  w.slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void spawn(W &w) {
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv))
    abort();
  w.slot->state = 0;
  w.slot->kind[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    close(sv[0]);
    worker(sv[1], w.slot);
    _exit(0);
  }
  close(sv[1]);
  w.pid = p;
  w.fd = sv[0];
}
static void reap(W &w) {
  kill(w.pid, SIGKILL);
  waitpid(w.pid, nullptr, 0);
}
#endif
static void add_stats(Stats &a, const Stats &b) {
  a.execs += b.execs;
  a.nodes += b.nodes;
  a.discarded += b.discarded;
  a.nontrivial += b.nontrivial;
  a.atomics += b.atomics;
  a.launches += b.launches;
  a.items += b.items;
  a.accesses += b.accesses;
  a.sched_execs += b.sched_execs;
  a.max_trace = std::max(a.max_trace, b.max_trace);
}
static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}
struct Vio {
  int sc;
  std::string kind, msg;
  Job job;
};
// re-execute in a fresh process; returns 1 if it fails, fills v
static int replay_once(W &w, const Job &j, double tmo, Vio &v) {
  spawn(w);
  std::string s;
  put_job(s, j);
  uint32_t h[2] = {(uint32_t)s.size(), 1};
  wr(w.fd, h, 8);
  wr(w.fd, s.data(), s.size());
  double t0 = now();
  int res = 0;
  for (;;) {
    pollfd pf{w.fd, POLLIN, 0};
    poll(&pf, 1, 100);
    if (pf.revents) {
      uint32_t n;
      if (rd(w.fd, &n, 4)) {
        res = 0;
      } else {
        res = 1;
        v.kind = w.slot->state == 2 ? w.slot->kind : "crash";
        v.msg = w.slot->state == 2 ? w.slot->msg : "process died";
      }
      break;
    }
    if (now() - t0 > tmo) {
      res = 1;
      v.kind = "hang";
      v.msg = "execution does not terminate (no progress within " +
              std::to_string((int)tmo) + " s)";
      break;
    }
  }
  reap(w);
  close(w.fd);
  return res;
}

EXPORT int mc_main(int argc, char **argv, const mc_scenario *s, int n) {
  scen = s;
  nscen = n;
  int nw = 8;
  double budget = 60, tmo = 20;
  std::string out, replay, only, replay_dir = ".";
  uint64_t maxex = ~0ull;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--workers")
      nw = atoi(val().c_str());
    else if (a == "--time")
      budget = atof(val().c_str());
    else if (a == "--out")
      out = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--tier")
      mc_tier = val() == "thorough";
    else if (a == "--only")
      only = val();
    else if (a == "--max")
      maxex = atoll(val().c_str());
    else if (a == "--timeout")
      tmo = atof(val().c_str());
    else if (a == "-v")
      verbose = 1;
    else if (a == "--list") {
      for (int k = 0; k < n; k++)
        printf("%s\n", s[k].name);
      return 0;
    }
  }
  signal(SIGPIPE, SIG_IGN);
#ifdef MC_REALMPI
  group_init(argc, argv, replay, s, n, only);
#endif
  if (getenv("MC_ONCE")) { // one execution, all choices 0 (validation runs)
    Job j;
    j.sc = 0;
    j.len = 0;
    verbose = 1;
    init_memory();
    install_handlers();
    run_one(j);
    return 0;
  }
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r");
    if (!f) {
      perror("replay");
      return 2;
    }
    char nm[256];
    Job j;
    unsigned len;
    if (fscanf(f, "scenario %255s len %u", nm, &len) != 2)
      return 2;
    j.len = len;
    unsigned a, b;
    while (fscanf(f, "%u:%u", &a, &b) == 2)
      j.p.push_back({a, (uint16_t)b});
    fclose(f);
    j.sc = -1;
    for (int k = 0; k < n; k++)
      if (!strcmp(s[k].name, nm))
        j.sc = k;
    if (j.sc < 0)
      return 2;
    verbose = 1;
    init_memory();
    install_handlers();
    slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    run_one(j);
    printf("execution completed without violation; inputs:%s\n", notes);
    return 0;
  }
  std::vector<W> ws(nw);
#ifdef MC_REALMPI
  nw = std::max(1, (8 + group_ranks / 2) / group_ranks);
  ws.resize(nw);
#endif
  for (auto &w : ws) {
    make_slot(w);
    spawn(w);
  }
#ifdef MC_REALMPI
  accept_workers();
  starting = false;
#endif
  double t0 = now();
  std::vector<Stats> per(n);
  std::vector<std::unordered_set<uint64_t>> outsets(n);
  std::vector<std::vector<Job>> pending(n);
  std::vector<int> inflight(n, 0);
  std::vector<int> active_s;
  for (int k = 0; k < n; k++) {
    if (!only.empty() && std::string(s[k].name).find(only) == std::string::npos)
      continue;
#ifdef MC_REALMPI
    if (scenario_ranks(s[k].name) != group_ranks)
      continue;
#endif
    Job j;
    j.sc = k;
    j.len = 0;
    pending[k].push_back(j);
    active_s.push_back(k);
  }
  std::vector<Vio> vios;
  uint64_t total = 0, unrepro = 0;
  int retries = 0;
  bool timed_out = false;
  size_t rrk = 0;
  auto handle_dead = [&](W &w, const char *forced_kind) {
    Vio v;
    Job j;
    j.sc = w.slot->scenario;
    j.len = w.slot->plen;
    for (uint32_t i = 0; i < w.slot->npre; i++)
      j.p.push_back({w.slot->pre[i].i, w.slot->pre[i].v});
    std::string kind = forced_kind          ? forced_kind
                       : w.slot->state == 2 ? w.slot->kind
                                            : "crash";
    std::string msg = w.slot->state == 2 ? w.slot->msg : "process died";
    reap(w);
    close(w.fd);
    v.sc = j.sc;
    v.job = j;
    int rep = 0;
    for (int t = 0; t < 3 && !rep; t++)
      rep = replay_once(w, j, tmo * 3, v);
    if (rep)
      vios.push_back(v);
    else if (retries < 20 && kind == "hang") {
      // the machine was too slow: do this work again
      retries++;
      const char *p = w.given.data(), *e = p + w.given.size();
      while (p < e) {
        Job g = get_job(p);
        pending[g.sc].push_back(std::move(g));
      }
    } else {
      unrepro++;
      fprintf(stderr, "mc: not reproduced: scenario %s %s: %s\n",
              s[j.sc].name, kind.c_str(), msg.c_str());
    }
    spawn(w);
    return rep;
  };
  for (;;) {
    bool any = false;
    bool stop = !vios.empty() || total >= maxex;
    if (now() - t0 > budget) {
      bool left = false;
      for (auto &p : pending)
        if (!p.empty())
          left = true;
      if (left)
        timed_out = true;
      stop = true;
    }
    if (!stop)
      for (auto &w : ws)
        if (!w.busy) {
          // scenario with pending work, round robin
          int k = -1;
          for (size_t t = 0; t < active_s.size(); t++) {
            int c = active_s[(rrk + t) % active_s.size()];
            if (!pending[c].empty()) {
              k = c;
              rrk = (rrk + t + 1) % active_s.size();
              break;
            }
          }
          if (k < 0)
            break;
          std::string sj;
          size_t take = pending[k].size() > (size_t)nw * 64 ? 32
                        : pending[k].size() > (size_t)nw * 8 ? 4
                                                            : 1;
          for (size_t t = 0; t < take && !pending[k].empty(); t++) {
            put_job(sj, pending[k].back());
            pending[k].pop_back();
          }
          uint32_t h[2] = {(uint32_t)sj.size(),
                           pending[k].size() > (size_t)nw * 8 ? 100000u : 4u};
          wr(w.fd, h, 8);
          wr(w.fd, sj.data(), sj.size());
          w.given = sj;
          w.busy = true;
        }
    std::vector<pollfd> pf;
    std::vector<int> idx;
    for (int i = 0; i < nw; i++)
      if (ws[i].busy) {
        pf.push_back({ws[i].fd, POLLIN, 0});
        idx.push_back(i);
        any = true;
      }
    if (!any)
      break;
    poll(pf.data(), pf.size(), 200);
    for (size_t q = 0; q < pf.size(); q++) {
      W &w = ws[idx[q]];
      if (pf[q].revents) {
        uint32_t nb;
        if (!rd(w.fd, &nb, 4)) {
          handle_dead(w, nullptr);
          w.busy = false;
          continue;
        }
        std::string o(nb, 0);
        if (!rd(w.fd, &o[0], nb)) {
          handle_dead(w, nullptr);
          w.busy = false;
          continue;
        }
        Stats x;
        const char *p = o.data();
        memcpy(&x, p, sizeof x);
        p += sizeof x;
        uint32_t no;
        memcpy(&no, p, 4);
        p += 4;
        int sc = w.slot->scenario;
        for (uint32_t i = 0; i < no; i++) {
          uint64_t hsh;
          memcpy(&hsh, p + 1, 8);
          if (outsets[(uint8_t)*p].size() < 5000000)
            outsets[(uint8_t)*p].insert(hsh);
          p += 9;
        }
        add_stats(per[sc], x);
        total += x.execs;
        while (p < o.data() + o.size()) {
          Job j = get_job(p);
          pending[j.sc].push_back(std::move(j));
        }
        w.busy = false;
      } else if (w.slot->state == 1 && now() - w.slot->t0 > tmo) {
        handle_dead(w, "hang");
        w.busy = false;
      }
    }
    if (!vios.empty())
      break;
  }
  double wall = now() - t0;
#ifdef MC_REALMPI
  for (auto &w : ws)
    kill_ranks(w);
#endif
  for (auto &w : ws)
    reap(w);
#ifdef MC_REALMPI
  group_cleanup();
#endif
  Stats tot;
  uint64_t distinct = 0;
  std::string js = "{\"scenarios\":[";
  bool firsts = true;
  for (int k : active_s) {
    add_stats(tot, per[k]);
    distinct += outsets[k].size();
    char b[600];
    snprintf(b, sizeof b,
             "%s{\"name\":\"%s\",\"executions\":%lu,\"nodes\":%lu,"
             "\"nontrivial\":%lu,\"discarded\":%lu,\"distinct_outcomes\":%zu,"
             "\"schedule_deviating\":%lu,\"max_choices\":%lu,"
             "\"exhausted\":%s}",
             firsts ? "" : ",", s[k].name, per[k].execs, per[k].nodes,
             per[k].nontrivial, per[k].discarded, outsets[k].size(),
             per[k].sched_execs, per[k].max_trace,
             pending[k].empty() ? "true" : "false");
    js += b;
    firsts = false;
  }
  char b[1000];
  snprintf(b, sizeof b,
           "],\"executions\":%lu,\"nodes\":%lu,\"nontrivial\":%lu,"
           "\"discarded\":%lu,\"distinct_outcomes\":%lu,\"atomics\":%lu,"
           "\"launches\":%lu,\"work_items\":%lu,\"checked_accesses\":%lu,"
           "\"schedule_deviating\":%lu,\"exhausted\":%s,\"unreproduced\":%lu,"
           "\"wall_s\":%.2f,\"violations\":[",
           tot.execs, tot.nodes, tot.nontrivial, tot.discarded, distinct,
           tot.atomics, tot.launches, tot.items, tot.accesses, tot.sched_execs,
           timed_out || total >= maxex ? "false" : "true", unrepro, wall);
  js += b;
  for (size_t i = 0; i < vios.size(); i++) {
    auto &v = vios[i];
    std::string r = "scenario " + std::string(s[v.sc].name) + " len " +
                    std::to_string(v.job.len);
    for (auto &x : v.job.p)
      r += " " + std::to_string(x.first) + ":" + std::to_string(x.second);
    js += std::string(i ? "," : "") + "{\"scenario\":\"" + s[v.sc].name +
          "\",\"kind\":\"" + jesc(v.kind) + "\",\"message\":\"" + jesc(v.msg) +
          "\",\"replay\":\"" + jesc(r) + "\"}";
  }
  js += "]}\n";
  if (!out.empty()) {
    FILE *f = fopen(out.c_str(), "w");
    fputs(js.c_str(), f);
    fclose(f);
  } else
    fputs(js.c_str(), stdout);
  return vios.empty() ? 0 : 1;
}
