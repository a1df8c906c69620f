// Deterministic allocator: replaces malloc for the whole process.  Addresses depend only on the sequence
// of requests and (optionally) on Plan::heap_seed; freed blocks sit in quarantine before reuse.
#include "internal.h"
#include <errno.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace dsim {
struct Hdr { u64 size; u32 cls; u32 magic; };
enum { kMagic = 0x51a110c8, kDead = 0xdeadf4ee };
static uptr g_cur = 0, g_end = 0; static bool g_mapped = false;
struct FreeNode { FreeNode* next; };
static const int kClasses = 200;
static FreeNode* g_free[kClasses];
static Rng g_hr(1); static bool g_perturb = false;
static const int kQ = 2048; static void* g_q[kQ]; static int g_qh = 0, g_qn = 0;
static bool g_quarantine = false;

static inline int ClassOf(size_t n, size_t* rounded) {
  if (n <= 1024) { int c = (int)((n + 15) / 16); if (!c) c = 1; *rounded = (size_t)c * 16; return c; }
  size_t r = 2048; int c = 65;
  while (r < n) { if (r + r / 2 >= n) { *rounded = r + r / 2; return c + 1; } r *= 2; c += 2; }
  *rounded = r; return c;
}
static void Map() {
  void* p = (void*)syscall(SYS_mmap, kHeapBase, kHeapSize + kMmapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { syscall(SYS_write, 2, "dsim heap\n", 10); _exit(90); }
  g_cur = kHeapBase + 4096; g_end = kHeapBase + kHeapSize; g_mapped = true;
}
static void* Alloc(size_t n, size_t align) {
  if (!g_mapped) Map();
  if (n > (4ULL << 30)) return nullptr;
  size_t r; int c = ClassOf(n, &r);
  void* p = nullptr;
  if (align <= 16) {
    FreeNode** f = &g_free[c];
    if (*f) {
      if (g_perturb && (*f)->next && g_hr.below(3) == 0) f = &(*f)->next;
      p = *f; *f = (*f)->next;
      Hdr* h = (Hdr*)p - 1; h->magic = kMagic; h->size = n;
      HeapAlloced((uptr)p, r);
      return p;
    }
  }
  uptr a = g_cur + sizeof(Hdr);
  if (g_perturb) a += 16 * g_hr.below(8);
  a = (a + align - 1) & ~(uptr)(align - 1);
  if (a + r > g_end) return nullptr;
  g_cur = (a + r + 15) & ~15UL;
  Hdr* h = (Hdr*)a - 1; h->size = n; h->cls = align <= 16 ? c : 0; h->magic = kMagic;
  return (void*)a;
}
static uptr g_run_base = 0;
static void Recycle(void* p) { if ((uptr)p < g_run_base) return; Hdr* h = (Hdr*)p - 1; if (h->cls) { FreeNode* f = (FreeNode*)p; f->next = g_free[h->cls]; g_free[h->cls] = f; } }
static void Free(void* p, uptr pc) {
  if (!p) return;
  if ((uptr)p - kHeapBase >= kHeapSize) {   // memory from before the runtime was up, or no heap memory at all
    if (g_active && self) Verdict("misuse", "release of a pointer that was not allocated");
    return;
  }
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != kMagic) { if (g_active && self) Verdict("misuse", h->magic == kDead ? "memory released twice" : "release of a pointer that was not allocated"); return; }
  HeapFreed((uptr)p, h->size, pc);
  h->magic = kDead;
  size_t r; if (h->cls) ClassOf(h->size, &r);
  if (g_quarantine && h->size <= (1 << 16)) {
    if (g_qn == kQ) { Recycle(g_q[g_qh]); g_qh = (g_qh + 1) % kQ; g_qn--; }
    g_q[(g_qh + g_qn) % kQ] = p; g_qn++;
  } else Recycle(p);
}
void HeapInitRun() {
  g_perturb = g_plan->heap_seed != 0; g_hr = Rng(g_plan->heap_seed);
  g_quarantine = g_plan->races;
  // every run allocates from the same addresses, whatever the parent process did before
  g_run_base = g_cur = kHeapBase + (kHeapSize >> 1);
  memset(g_free, 0, sizeof g_free); g_qh = g_qn = 0;
}
bool AllocShouldFail() { return g_active && self && IoFault(OP_ALLOC, true) != F_NONE; }
}
using namespace dsim;
#define PC ((uptr)__builtin_return_address(0))
extern "C" {
void* malloc(size_t n) { if (AllocShouldFail()) { errno = ENOMEM; return nullptr; } void* p = Alloc(n, 16); if (!p) errno = ENOMEM; return p; }
void free(void* p) { Free(p, self && self->csn > 0 && self->csn <= 256 ? self->cs[self->csn - 1] : PC); }
void* calloc(size_t a, size_t b) {
  if (a && b > (~0UL) / a) { errno = ENOMEM; return nullptr; }
  void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { free(p); return nullptr; }
  void* q = malloc(n); if (!q) return nullptr;
  Hdr* h = (Hdr*)p - 1; memcpy(q, p, h->size < n ? h->size : n); free(p); return q;
}
void* reallocarray(void* p, size_t a, size_t b) { if (a && b > (~0UL) / a) { errno = ENOMEM; return nullptr; } return realloc(p, a * b); }
int posix_memalign(void** o, size_t al, size_t n) { if (AllocShouldFail()) return ENOMEM; void* p = Alloc(n, al < 16 ? 16 : al); if (!p) return ENOMEM; *o = p; return 0; }
void* aligned_alloc(size_t al, size_t n) { void* p = nullptr; return posix_memalign(&p, al, n) ? nullptr : p; }
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
void* valloc(size_t n) { return aligned_alloc(4096, n); }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}
