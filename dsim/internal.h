#pragma once
#include "dsim.h"
#include <pthread.h>
#include <semaphore.h>
#include <atomic>
#include <vector>
#include <map>
#include <cstring>
#include <cstdlib>
#include <new>
namespace dsim {
typedef uintptr_t uptr;
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8; typedef int64_t i64;

// ------------------------------------------------------------ memory map
const uptr kBase = 0x100000000000ULL;             // simulated memory
const uptr kHeapBase = kBase, kHeapSize = 16ULL << 30;
const uptr kMmapBase = kHeapBase + kHeapSize, kMmapSize = 16ULL << 30;
const uptr kStackBase = kMmapBase + kMmapSize;
const int kMaxThreads = 120;
const uptr kStack0 = 64ULL << 20, kStackN = 4ULL << 20;
const uptr kStackSize = kStack0 + kStackN * kMaxThreads;
const uptr kEnd = kStackBase + kStackSize;
const uptr kShadowBase = 0x200000000000ULL;       // 64 bytes of shadow per 8 bytes

struct Cell { u32 clk; u8 tid; u8 mask; u8 flags; u8 pad; u32 pc; u32 acc; };   // flags: 1 write, 2 atomic, 4 freed
enum { C_WRITE = 1, C_ATOMIC = 2, C_FREED = 4 };
inline Cell* ShadowOf(uptr a) { return (Cell*)(kShadowBase + ((a - kBase) >> 3) * 64); }
inline bool InSim(uptr a) { return a - kBase < kEnd - kBase; }

// allocator for the runtime's own containers: never goes through the simulated heap
void NoteFaultStack();
void* IntAllocBytes(size_t n);
template <class T> struct IntAlloc {
  typedef T value_type;
  IntAlloc() {}
  template <class U> IntAlloc(const IntAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)IntAllocBytes(n * sizeof(T)); }
  void deallocate(T*, size_t) {}
  template <class U> bool operator==(const IntAlloc<U>&) const { return true; }
  template <class U> bool operator!=(const IntAlloc<U>&) const { return false; }
};

struct VC { u32 c[kMaxThreads]; };

enum State { S_FREE = 0, S_RUNNABLE, S_BLOCKED, S_FINISHED };
enum BlockKind { B_NONE, B_MUTEX, B_COND, B_SEM, B_JOIN, B_SLEEP, B_RW, B_ONCE, B_GUARD };
struct TCB {
  int id; State st; BlockKind bk; const void* obj; const void* obj2;
  i64 deadline;       // -1 none
  bool timed_out, signaled, spurious;
  std::atomic<int> go;
  pthread_t real; bool real_joined, detached, joined;
  void* (*start)(void*); void* arg; void* ret;
  int exit_rounds;
  u32 epoch; VC vc;
  u64 prio; u64 stall_until;
  int quiet;
  uptr stack_lo, stack_hi;
  u32 cs[256]; int csn;   // call stack of return addresses
  i64 wake_seq;
};
extern thread_local TCB* self __attribute__((tls_model("initial-exec")));
extern bool g_active;            // a run is in progress in this process
extern Plan* g_plan;
extern int g_nthreads;

struct Shared;                    // region shared with the parent
void Hash(u64 x);
void Log(char type, u64 key, i64 val);
bool SchedPoint(int what);       // current thread stays runnable
void Block(BlockKind k, const void* obj, i64 deadline, const void* obj2 = nullptr);
void WakeAll(BlockKind k, const void* obj);
bool WakeOne(BlockKind k, const void* obj);
i64 Decide(i64 def, i64 random_value);
Rng& SchedRng();
Rng& FaultRng();
u64 NextAccess();
void EndRun(OutcomeKind kind, int code) __attribute__((noreturn));
void RaceThreadStart(TCB* parent, TCB* child);
void RaceThreadJoin(TCB* joiner, TCB* child);
void Acquire(const void* obj);
void Release(const void* obj);        // store
void ReleaseMerge(const void* obj);   // join
void DropSync(const void* obj);
void AccessRange(uptr a, size_t n, bool write, uptr pc);
void HeapFreed(uptr a, size_t n, uptr pc);
void HeapAlloced(uptr a, size_t n);
void ClearShadow(uptr a, size_t n);
void RaceInitRun();
bool AllocShouldFail();
void HeapInitRun();
void IoInitRun();
void IoCrashDump(); const CrashPlan& GetCrash();
void IoFlushStdout();
void NoteSite(int op_class, u64 index);
FaultKind IoFault(OpClass c, bool eligible, u32* arg = nullptr, bool writing = false);
void CountFault(FaultKind k);
std::string PcList();
void* RealSym(const char* name);
template <class F> F Real(const char* name, F& cache) { if (!cache) cache = (F)RealSym(name); return cache; }
}
