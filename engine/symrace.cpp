// Conflict detection between the element computations of a parallel region.
// A region is entered by the mock parallel backend (harness/mock/pstl_backend.h);
// every plain memory access of the instrumented code is reported with the element
// being computed.  Two elements touching the same byte, one of them writing, with
// no common lock, is a data race whatever the thread schedule.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
extern "C" void __sym_fail(const char *label, const char *detail);
namespace {
struct Cell {
  uint16_t w = 0, r = 0; // 1 + element index; r == 0xffff: several
  uint32_t lk = 0;       // lock held (hash) by every recorded access, 0 = none
};
constexpr uintptr_t PG = 4096;
struct Page {
  uintptr_t base = 0;
  uint32_t gen = 0;
  Cell *c = nullptr;
};
constexpr size_t NP = 1 << 16;
struct Region {
  Page *tab = nullptr;
  uintptr_t frame = 0;
  uint32_t it = 0;
  uint32_t gen = 0;
};
constexpr int MAXD = 4;
Region reg[MAXD];
int depth = 0;
int guard = 0;
uint32_t lock = 0;
long naccess = 0;
Cell *cell(Region &r, uintptr_t a, bool create) {
  uintptr_t b = a / PG;
  size_t h = (b * 0x9E3779B97F4A7C15ull) >> 48;
  for (size_t k = 0; k < NP; ++k) {
    Page &p = r.tab[(h + k) % NP];
    if (p.gen != r.gen) {
      if (!create) return nullptr;
      if (!p.c) p.c = (Cell *)mmap(nullptr, PG * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      else memset((void *)p.c, 0, PG * sizeof(Cell));
      p.gen = r.gen;
      p.base = b;
      return p.c;
    }
    if (p.base == b) return p.c;
  }
  return nullptr;
}
void clear(uintptr_t a, size_t n) {
  for (int d = 0; d < depth; ++d)
    for (uintptr_t x = a; x < a + n;) {
      uintptr_t e = (x / PG + 1) * PG;
      if (e > a + n) e = a + n;
      if (Cell *c = cell(reg[d], x, false)) memset((void *)(c + x % PG), 0, (e - x) * sizeof(Cell));
      x = e;
    }
}
void *alloc(size_t n, size_t al) {
  void *p = al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (depth) clear((uintptr_t)p, n);
  return p;
}
} // namespace
extern "C" {
int __sym_region_begin(void *frame) {
  if (depth == MAXD) return 0;
  Region &r = reg[depth];
  if (!r.tab) r.tab = (Page *)mmap(nullptr, NP * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  r.gen++;
  r.frame = (uintptr_t)frame;
  r.it = 0;
  depth++;
  return depth;
}
void __sym_region_elem(int d, unsigned i) { reg[d - 1].it = i == ~0u ? 0 : 1 + i % 60000; }
void __sym_region_end(int d) { depth = d - 1; }
int __sym_region_depth() { return depth; }
long __sym_acc_count() { return naccess; }
void __sym_acc_alloc(void *p) {
  if (depth && p) clear((uintptr_t)p, malloc_usable_size(p));
}
void __sym_acc_lock(void *m, int on) { lock = on ? (uint32_t)(uintptr_t)m | 1u : 0; }
void __sym_acc_guard(int on) { guard += on; }
void __sym_acc(void *p, uint64_t n, int write) {
  if (!depth || guard) return;
  uintptr_t a = (uintptr_t)p;
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  for (int d = 0; d < depth; ++d) {
    Region &r = reg[d];
    if (!r.it) continue;
    if (a < r.frame && a + 65536 > sp) continue; // the element's own stack
    naccess++;
    for (uint64_t k = 0; k < n; ++k) {
      Cell *pg = cell(r, a + k, true);
      if (!pg) return;
      Cell &c = pg[(a + k) % PG];
      bool other = (c.w && c.w != r.it) || (write && c.r && c.r != r.it);
      uint32_t lk = c.w || c.r ? (c.lk == lock ? lock : 0) : lock;
      if (other && !lk) {
        char b[200];
        snprintf(b, sizeof b, "%s of element %u after %s of element %d at the same address", write ? "write" : "read", r.it - 1,
                 c.w && c.w != r.it ? "write" : "read", (c.w && c.w != r.it ? c.w : c.r == 0xffff ? 0 : c.r) - 1);
        depth = 0;
        __sym_fail("race", b);
        return;
      }
      c.lk = lk;
      if (write) c.w = r.it;
      else c.r = !c.r || c.r == r.it ? r.it : 0xffff;
    }
  }
}
}
void *operator new(size_t n) { return alloc(n, 0); }
void *operator new[](size_t n) { return alloc(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
