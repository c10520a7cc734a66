// Replay support linked into the native shared object of each harness:
// allocations end at an inaccessible page, freed blocks become inaccessible,
// frees are validated and live blocks are counted.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace {
constexpr int CAP = 1 << 16;
struct Rec { char * p; char * base; size_t n; size_t map; bool live; };
Rec recs[CAP];
int nrec = 0;
long live = 0;

void * galloc(size_t n) {
  if (nrec >= CAP) _exit(79);
  size_t const ps = 4096;
  size_t const pages = (n + ps - 1) / ps + 1;
  char * base = static_cast<char *>(mmap(nullptr, (pages + 1) * ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  if (base == MAP_FAILED) _exit(79);
  mprotect(base + pages * ps, ps, PROT_NONE);
  size_t al = 64;
  while (al > 1 && (n % al) != 0) al /= 2;
  if (n == 0) al = 64;
  char * p = base + pages * ps - n;
  if (n == 0) p = base + pages * ps - 64;
  for (char * q = base; q < base + pages * ps; ++q) *q = static_cast<char>(0xA5);
  recs[nrec++] = {p, base, n, (pages + 1) * ps, true};
  ++live;
  return p;
}
void gfree(void * p) {
  if (p == nullptr) return;
  for (int i = nrec - 1; i >= 0; --i)
    if (recs[i].p == p && recs[i].live) {
      // bytes before the block must be intact
      for (char * q = recs[i].base; q < recs[i].p; ++q)
        if (*q != static_cast<char>(0xA5)) _exit(78);
      mprotect(recs[i].base, recs[i].map, PROT_NONE);
      recs[i].live = false; --live;
      return;
    }
  _exit(78);
}
} // namespace

extern "C" void * irv_alloc(size_t n) { return galloc(n); }
extern "C" long irv_live() { return live; }
extern "C" int irv_isblock(void * p) {
  for (int i = nrec - 1; i >= 0; --i) if (recs[i].p == p) return recs[i].live ? 1 : 0;
  return 0;
}
extern "C" long irv_blocksize(void * p) {
  for (int i = nrec - 1; i >= 0; --i) if (recs[i].p == p && recs[i].live) return static_cast<long>(recs[i].n);
  return -1;
}
// underflow check of every live block
extern "C" int irv_intact() {
  for (int i = 0; i < nrec; ++i)
    if (recs[i].live)
      for (char * q = recs[i].base; q < recs[i].p; ++q)
        if (*q != static_cast<char>(0xA5)) return 0;
  return 1;
}
static int kept = -1; // blocks made while the library was loaded belong to its globals
extern "C" void irv_reset() {
  if (kept < 0) kept = nrec;
  for (int i = kept; i < nrec; ++i) munmap(recs[i].base, recs[i].map);
  nrec = kept; live = 0;
}
void * operator new(size_t n) { return galloc(n); }
void * operator new[](size_t n) { return galloc(n); }
void * operator new(size_t n, std::align_val_t) { return galloc(n); }
void * operator new[](size_t n, std::align_val_t) { return galloc(n); }
void operator delete(void * p) noexcept { gfree(p); }
void operator delete[](void * p) noexcept { gfree(p); }
void operator delete(void * p, size_t) noexcept { gfree(p); }
void operator delete[](void * p, size_t) noexcept { gfree(p); }
void operator delete(void * p, std::align_val_t) noexcept { gfree(p); }
void operator delete[](void * p, std::align_val_t) noexcept { gfree(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { gfree(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { gfree(p); }
namespace um2 {
__attribute__((weak)) void failedAssert(char const *, int, char const *) noexcept { _exit(77); }
}
