// Host heap blocks of operator new: a guard behind every block finds writes past
// its end, new memory has no useful content, blocks are deleted once, and
// frees are shown to the engine (a buffer released while an unwaited command or
// MPI request still uses it).
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
extern "C" void mc_check_delete(void *p, size_t n);
extern "C" void mc_fail(const char *kind, const char *fmt, ...);
namespace {
struct Head {
  std::size_t n;
  std::uint64_t tag;
};
constexpr std::uint64_t LIVE = 0x6c6976656e657721ull,
                        DEAD = 0x64656164626c6f63ull;
constexpr std::size_t TAIL = 32;
constexpr unsigned char BYTE = 0xa7;
static_assert(sizeof(Head) == 16);

void release(void *p) {
  if (!p)
    return;
  Head *h = (Head *)p - 1;
  if (h->tag != LIVE)
    mc_fail("memory", h->tag == DEAD
                          ? "host heap block is deleted twice"
                          : "deleted host pointer is no heap block, or memory "
                            "before the block was written");
  const unsigned char *t = (unsigned char *)p + h->n;
  for (std::size_t i = 0; i < TAIL; i++)
    if (t[i] != BYTE)
      mc_fail("memory",
              "host heap block of %zu bytes was written past its end (byte %zu)",
              h->n, h->n + i);
  mc_check_delete(p, h->n);
  h->tag = DEAD;
  std::free(h);
}
} // namespace
void *operator new(std::size_t n) {
  Head *h = (Head *)std::malloc(sizeof(Head) + n + TAIL);
  if (!h)
    throw std::bad_alloc();
  h->n = n;
  h->tag = LIVE;
  std::memset(h + 1, BYTE, n + TAIL);
  return h + 1;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, std::size_t) noexcept { release(p); }
void operator delete[](void *p, std::size_t) noexcept { release(p); }
