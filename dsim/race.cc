// Happens-before race detector and preemption points: the __tsan_* callbacks of
// instrumented code.  Deterministic (no sampling); locations are remembered as program counters.
#include "internal.h"
#include <execinfo.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <iostream>
#include <unordered_map>

extern "C" char __data_start, _end, __executable_start, etext;
namespace dsim {
u32* RacePcBuf(int** n);
void AccessPreempt();
u64& AccessCounter();

// globals of the executable get their own shadow
static uptr g_glo, g_ghi; static Cell* g_gshadow;
struct Range { uptr lo, hi; };
static Range g_excl[16]; static int g_nexcl = 0;
static bool g_races = false;
static u64* g_acc = nullptr;

typedef std::unordered_map<uptr, VC*, std::hash<uptr>, std::equal_to<uptr>, IntAlloc<std::pair<const uptr, VC*>>> SyncMap;
static SyncMap* g_sync = nullptr;
static VC* g_vcfree[1024]; static int g_nvcfree = 0;

static void Exclude(void* p, size_t n) { g_excl[g_nexcl++] = {(uptr)p, (uptr)p + n}; }

static void MapFixed(uptr a, size_t n) {
  void* p = (void*)syscall(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) { perror("dsim shadow"); _exit(91); }
}
void RaceInitRun() {
  g_acc = &AccessCounter();
  g_races = g_plan->races;
  g_sync = new (IntAllocBytes(sizeof(SyncMap))) SyncMap();
  g_glo = (uptr)&__data_start & ~7UL; g_ghi = (uptr)&_end;
  if (g_races) {
    MapFixed(kShadowBase, (kEnd - kBase) * 8);
    size_t n = (g_ghi - g_glo + 8) * 8;
    g_gshadow = (Cell*)syscall(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  g_nexcl = 0;
  Exclude(&std::cin, sizeof std::cin); Exclude(&std::cout, sizeof std::cout); Exclude(&std::cerr, sizeof std::cerr); Exclude(&std::clog, sizeof std::clog);
}
static inline Cell* Shadow(uptr a) {
  if (InSim(a)) return ShadowOf(a);
  if (a >= g_glo && a < g_ghi) {
    for (int i = 0; i < g_nexcl; ++i) if (a >= g_excl[i].lo && a < g_excl[i].hi) return nullptr;
    return g_gshadow + ((a - g_glo) >> 3) * 4;
  }
  return nullptr;
}
void ClearShadow(uptr a, size_t n) {
  if (!InSim(a) || !g_races) return;
  uptr s = (uptr)ShadowOf(a & ~7UL), e = (uptr)ShadowOf((a + n + 7) & ~7UL);
  if (e - s > (1 << 16)) {
    uptr ps = (s + 4095) & ~4095UL, pe = e & ~4095UL;
    memset((void*)s, 0, ps - s);
    if (pe > ps) syscall(SYS_madvise, ps, pe - ps, MADV_DONTNEED);
    memset((void*)pe, 0, e - pe);
  } else memset((void*)s, 0, e - s);
}

// -------------------------------------------------------------- clocks
static inline void Join(VC& a, const VC& b) { for (int i = 0; i < g_nthreads; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline void Tick() { self->epoch++; self->vc.c[self->id] = self->epoch; }
static VC* GetVC(const void* o, bool make) {
  auto it = g_sync->find((uptr)o);
  if (it != g_sync->end()) return it->second;
  if (!make) return nullptr;
  VC* v = g_nvcfree ? g_vcfree[--g_nvcfree] : (VC*)IntAllocBytes(sizeof(VC));
  memset(v, 0, sizeof *v);
  (*g_sync)[(uptr)o] = v;
  return v;
}
void Acquire(const void* o) { if (VC* v = GetVC(o, false)) Join(self->vc, *v); }
void Release(const void* o) { *GetVC(o, true) = self->vc; Tick(); }
void ReleaseMerge(const void* o) { Join(*GetVC(o, true), self->vc); Tick(); }
void DropSync(const void* o) {
  if (!g_sync) return;
  auto it = g_sync->find((uptr)o);
  if (it != g_sync->end()) { if (g_nvcfree < 1024) g_vcfree[g_nvcfree++] = it->second; g_sync->erase(it); }
}
void RaceThreadStart(TCB* p, TCB* c) {
  u32 ep = c->vc.c[c->id] > c->epoch ? c->vc.c[c->id] : c->epoch;
  c->epoch = ep + 1; c->vc = p->vc; c->vc.c[c->id] = c->epoch;
  // Tick the parent
  p->epoch++; p->vc.c[p->id] = p->epoch;
}
void RaceThreadJoin(TCB* j, TCB* c) { Join(j->vc, c->vc); }

// -------------------------------------------------------------- reports
static void PutStack(TCB* t, uptr pc, u32 other) {
  int* n; u32* buf = RacePcBuf(&n);
  *n = 0;
  buf[(*n)++] = (u32)pc; buf[(*n)++] = other;
  for (int i = std::min(t->csn, 256) - 1; i >= 0 && *n < 30; --i) buf[(*n)++] = t->cs[i];
}
static void Report(const char* kind, uptr a, size_t sz, bool w, uptr pc, const Cell& c) {
  char b[512];
  PutStack(self, pc, c.pc);
  if (c.flags & C_FREED) {
    snprintf(b, sizeof b, "T%d %s %zu bytes of memory released by T%d at pc=0x%x, access pc=0x%lx", self->id, w ? "writes" : "reads", sz, c.tid, c.pc, (unsigned long)pc);
    Verdict("use-after-free", b);
  }
  snprintf(b, sizeof b, "T%d %s %zu bytes at pc=0x%lx without ordering against T%d's %s at pc=0x%x", self->id, w ? "writes" : "reads", sz, (unsigned long)pc, c.tid, c.flags & C_WRITE ? "write" : "read", c.pc);
  Verdict(kind, b);
}

static inline void CheckWord(uptr a, u8 mask, bool w, bool atomic, uptr pc, size_t sz) {
  Cell* c = Shadow(a);
  if (!c) return;
  TCB* me = self;
  u8 fl = (w ? C_WRITE : 0) | (atomic ? C_ATOMIC : 0);
  int store = -1, empty = -1;
  for (int i = 0; i < 4; ++i) {
    Cell& k = c[i];
    if (!k.clk) { if (empty < 0) empty = i; continue; }
    if (!(k.mask & mask)) continue;
    if (k.flags & C_FREED) { Report("use-after-free", a, sz, w, pc, k); }
    if (k.tid == me->id) {
      if (k.clk == me->epoch && (k.mask & mask) == mask && ((k.flags & C_WRITE) || !w) && ((k.flags & C_ATOMIC) == 0 || atomic)) return;  // already recorded
      if ((k.mask & ~mask) == 0 && ((k.flags & C_WRITE) == 0 || w) && ((k.flags & C_ATOMIC) || !atomic)) store = i;   // overwritten by this access
      continue;
    }
    if (!((k.flags & C_WRITE) || w)) continue;
    if ((k.flags & C_ATOMIC) && atomic) continue;
    if (k.clk <= me->vc.c[k.tid]) { if ((k.mask & ~mask) == 0 && (w || !(k.flags & C_WRITE)) && (!atomic || (k.flags & C_ATOMIC))) store = i; continue; }
    Report("race", a, sz, w, pc, k);
  }
  if (store < 0) store = empty;
  if (store < 0) {   // evict: deterministic, prefers reads
    for (int i = 0; i < 4; ++i) if (!(c[i].flags & C_WRITE)) { store = i; break; }
    if (store < 0) store = (int)(me->epoch & 3);
  }
  Cell& k = c[store];
  k.clk = me->epoch; k.tid = (u8)me->id; k.mask = mask; k.flags = fl; k.pc = (u32)pc;
}
void AccessRange(uptr a, size_t n, bool w, uptr pc) {
  if (!g_active || !self || !n) return;
  if (self->quiet) return;
  *g_acc += 1 + n / 64;
  if (*g_acc >= NextAccess()) AccessPreempt();
  if (!g_races) return;
  uptr e = a + n;
  while (a < e) {
    uptr w0 = a & ~7UL; int off = a - w0; int len = (int)std::min<uptr>(8 - off, e - a);
    CheckWord(w0, (u8)(((1u << len) - 1) << off), w, false, pc, n);
    a += len;
  }
}
static inline void Access(uptr a, int n, bool w, bool atomic, uptr pc) {
  if (__builtin_expect(!g_active || !self, 0)) return;
  if (self->quiet) return;
  if (++*g_acc >= NextAccess()) AccessPreempt();
  if (!g_races) return;
  uptr w0 = a & ~7UL; int off = a - w0;
  if (off + n <= 8) CheckWord(w0, (u8)(((1u << n) - 1) << off), w, atomic, pc, n);
  else { int l = 8 - off; CheckWord(w0, (u8)(((1u << l) - 1) << off), w, atomic, pc, n);
    if (n - l <= 8) CheckWord(w0 + 8, (u8)((1u << (n - l)) - 1), w, atomic, pc, n);
    else { CheckWord(w0 + 8, 0xff, w, atomic, pc, n); CheckWord(w0 + 16, (u8)((1u << (n - l - 8)) - 1), w, atomic, pc, n); } }
}
void HeapFreed(uptr a, size_t n, uptr pc) {
  if (!g_active || !self || !g_races || !n) return;
  // free counts as a write: an unordered access of another thread races with it
  size_t lim = std::min<size_t>(n, 256);
  if (!self->quiet) for (uptr p = a; p < a + lim; p += 8) CheckWord(p & ~7UL, 0xff, true, false, pc, 8);
  size_t m = std::min<size_t>(n, 4096);
  for (uptr p = a & ~7UL; p < a + m; p += 8) {
    Cell* c = ShadowOf(p);
    memset(c, 0, 64); c[0].clk = self->epoch ? self->epoch : 1; c[0].tid = (u8)self->id; c[0].mask = 0xff; c[0].flags = C_WRITE | C_FREED; c[0].pc = (u32)pc;
  }
}
void HeapAlloced(uptr a, size_t n) { if (g_active && g_races) ClearShadow(a, n); }
// drop synchronisation clocks of an address range is unnecessary: stale clocks only hide races
}  // namespace dsim

using namespace dsim;
#define PC ((uptr)__builtin_return_address(0))
#define AMASK(sz) (sz)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (self) { TCB* t = self; if (t->csn < 256) t->cs[t->csn] = (u32)(uptr)pc; t->csn++; } }
void __tsan_func_exit() { if (self && self->csn > 0) self->csn--; }
#define RW(n) \
  void __tsan_read##n(void* a) { Access((uptr)a, n, false, false, PC); } \
  void __tsan_write##n(void* a) { Access((uptr)a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { Access((uptr)a, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { Access((uptr)a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { Access((uptr)a, n, false, false, PC); } \
  void __tsan_volatile_write##n(void* a) { Access((uptr)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { AccessRange((uptr)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { AccessRange((uptr)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) {
  // An unchanged vptr is no write; what a stack slot held before is not reproducible (the dynamic linker's
  // register save area leaves hardware-dependent bytes there), so stacks are not looked at.
  if ((uptr)a - kStackBase < kStackSize) { Access((uptr)a, 8, true, false, PC); return; }
  if (*a != v) Access((uptr)a, 8, true, false, PC);
}
void __tsan_vptr_read(void** a) { Access((uptr)a, 8, false, false, PC); }

// ---- atomics: every operation is a scheduling point candidate through the access counter
static inline void AtomicPre(void* a, int n, bool w, uptr pc) { Access((uptr)a, n, w, true, pc); }
static inline bool IsAcq(int mo) { return mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE; }
static inline bool IsRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool On() { return g_active && self; }
#define ATOMICS(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { AtomicPre((void*)a, sizeof(T), false, PC); T v = *a; if (On() && IsAcq(mo)) Acquire((const void*)a); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); if (On() && IsRel(mo)) Release((const void*)a); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; *a = v; if (On()) { if (IsAcq(mo)) Acquire((const void*)a); if (IsRel(mo)) ReleaseMerge((const void*)a); } return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o + v); if (On()) { if (IsAcq(mo)) Acquire((const void*)a); if (IsRel(mo)) ReleaseMerge((const void*)a); } return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o - v); if (On()) { if (IsAcq(mo)) Acquire((const void*)a); if (IsRel(mo)) ReleaseMerge((const void*)a); } return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o & v); if (On()) { if (IsAcq(mo)) Acquire((const void*)a); if (IsRel(mo)) ReleaseMerge((const void*)a); } return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o | v); if (On()) { if (IsAcq(mo)) Acquire((const void*)a); if (IsRel(mo)) ReleaseMerge((const void*)a); } return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)(o ^ v); if (On()) { if (IsAcq(mo)) Acquire((const void*)a); if (IsRel(mo)) ReleaseMerge((const void*)a); } return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; *a = (T)~(o & v); if (On()) { if (IsAcq(mo)) Acquire((const void*)a); if (IsRel(mo)) ReleaseMerge((const void*)a); } return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; bool ok = o == *c; if (ok) *a = v; else *c = o; \
    if (On()) { if (IsAcq(ok ? mo : fmo)) Acquire((const void*)a); if (ok && IsRel(mo)) ReleaseMerge((const void*)a); } return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; bool ok = o == *c; if (ok) *a = v; else *c = o; \
    if (On()) { if (IsAcq(ok ? mo : fmo)) Acquire((const void*)a); if (ok && IsRel(mo)) ReleaseMerge((const void*)a); } return ok; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { AtomicPre((void*)a, sizeof(T), true, PC); T o = *a; bool ok = o == c; if (ok) *a = v; \
    if (On()) { if (IsAcq(ok ? mo : fmo)) Acquire((const void*)a); if (ok && IsRel(mo)) ReleaseMerge((const void*)a); } return o; }
ATOMICS(8, u8) ATOMICS(16, uint16_t) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- memory functions called from instrumented objects (objcopy --redefine-sym memcpy=dsim_memcpy)
void* dsim_memcpy(void* d, const void* s, size_t n) { AccessRange((uptr)s, n, false, PC); AccessRange((uptr)d, n, true, PC); return memcpy(d, s, n); }
void* dsim_memmove(void* d, const void* s, size_t n) { AccessRange((uptr)s, n, false, PC); AccessRange((uptr)d, n, true, PC); return memmove(d, s, n); }
void* dsim_memset(void* d, int c, size_t n) { AccessRange((uptr)d, n, true, PC); return memset(d, c, n); }
}
