// Scheduler, threads, synchronisation primitives, clocks and the fork driver of dsim.
#include "internal.h"
#include <ucontext.h>
#include <signal.h>
#include <dlfcn.h>
#include <link.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
#include <algorithm>

namespace dsim {

const char* const kFaultName[F_KIND_COUNT] = {"none", "short_read", "short_write", "eintr", "read_eio", "write_eio", "write_enospc",
  "open_fail", "fsync_eio", "mmap_enomem", "alloc_fail", "seek_eio", "trunc_eio", "close_eio", "crash", "spurious_wakeup", "clock_jump",
  "stall", "timer_early", "thread_create_fail"};
const char* const kOpName[OP_CLASSES] = {"read", "write", "open", "sync", "mmap", "alloc", "seek", "trunc", "close", "thread", "sem", "any_io"};

thread_local TCB* self __attribute__((tls_model("initial-exec"))) = nullptr;
bool g_active = false;
Plan* g_plan = nullptr;
int g_nthreads = 0;

static const size_t kSites = 8192;
static const size_t kMaxTrace = 400000, kMaxNotes = 8 << 20;
struct Shared {
  OutcomeKind kind; int code;
  char verdict[64]; char message[16384];
  u64 hash, sched_hash, steps, accesses, switches, preempts; int threads; i64 now;
  u64 ops[OP_CLASSES], faults[F_KIND_COUNT];
  u64 ntrace; bool overflow; Rec trace[kMaxTrace];
  u64 nnotes; char notes[kMaxNotes];
  struct SiteSlot { u64 stack, count, index[6]; } sites[OP_CLASSES][kSites];
  u32 race_pcs[64]; volatile u32 absorbed; bool null_page; u32 fault_pcs[24]; int nfault; int nrace;
};
static Shared* g_sh = nullptr;
u32* RacePcBuf(int** n) { *n = &g_sh->nrace; return g_sh->race_pcs; }

static TCB g_tcb[kMaxThreads];
static i64 g_now = 0, g_rt_off = 0;
static Rng g_srng(1), g_frng(1);
static u64 g_pct_points[64]; static int g_pct_n = 0, g_pct_i = 0; static u64 g_pct_low = 0;
static int g_starve = -1; static u64 g_starve_until = 0;
static u64 g_next_access = ~0ULL;
static TCB* g_reap = nullptr;
static pthread_key_t g_exit_key;
static int g_last_rr = 0;

// script cursors
struct ScriptIdx { std::vector<Rec, IntAlloc<Rec>> v; size_t i = 0; };
static ScriptIdx* g_script[128];

uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const u8* b = (const u8*)p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
  h ^= h >> 29; return h;
}
static char* g_int_cur = nullptr; static size_t g_int_left = 0;
void* IntAllocBytes(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (n > g_int_left) {
    size_t want = std::max(n, (size_t)1 << 20);
    void* p = (void*)syscall(SYS_mmap, 0, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) _exit(97);
    g_int_cur = (char*)p; g_int_left = want;
  }
  void* r = g_int_cur; g_int_cur += n; g_int_left -= n; return r;
}
void* RealSym(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "dsim: no real %s\n", name); _exit(98); }
  return p;
}
Rng& SchedRng() { return g_srng; }
Rng& FaultRng() { return g_frng; }
bool Active() { return g_active && self; }
i64 NowNs() { return g_now; }
uint64_t Step() { return g_sh->steps; }
int Tid() { return self ? self->id : -1; }
Quiet::Quiet() { if (self) self->quiet++; }
Quiet::~Quiet() { if (self) self->quiet--; }
void Hash(u64 x) { g_sh->hash = (g_sh->hash ^ (x + 0x9E3779B97F4A7C15ULL)) * 0xff51afd7ed558ccdULL; g_sh->hash ^= g_sh->hash >> 32; }
static void HashS(u64 x) { g_sh->sched_hash = (g_sh->sched_hash ^ (x + 0x9E3779B97F4A7C15ULL)) * 0xff51afd7ed558ccdULL; g_sh->sched_hash ^= g_sh->sched_hash >> 32; }
void Event(uint64_t x) { if (g_sh) Hash(x); }
void Log(char type, u64 key, i64 val) {
  if (g_sh->ntrace < kMaxTrace) { Rec& r = g_sh->trace[g_sh->ntrace++]; r.type = type; r.key = key; r.val = val; }
  else g_sh->overflow = true;
  Hash(((u64)type << 56) ^ key * 31 ^ (u64)val);
}
void CountFault(FaultKind k) { g_sh->faults[k]++; }
u64* OpCounter() { return g_sh->ops; }
void NoteSite(int c, u64 idx) {
  u64 h = 1469598103934665603ULL ^ c; int n = std::min(self->csn, 256);
  for (int i = n - 1; i >= 0 && i >= n - 8; --i) { h = (h ^ self->cs[i]) * 1099511628211ULL; h ^= h >> 29; }
  if (!h) h = 1;
  for (u64 k = 0, p = h; k < 16; ++k, ++p) {
    Shared::SiteSlot& s = g_sh->sites[c][p % kSites];
    if (s.stack && s.stack != h) continue;
    s.stack = h; u64 i = s.count++;
    if (i < 5) s.index[i] = idx;
    else { u64 z = (h + i) * 0x9E3779B97F4A7C15ULL; z ^= z >> 31; u64 j = z % (i + 1); if (j < 4) s.index[1 + j] = idx; }
    s.index[5] = idx; return;
  }
}
u64& AccessCounter() { return g_sh->accesses; }

void EndRun(OutcomeKind kind, int code) {
  if (kind == OUT_EXIT && GetCrash().on && GetCrash().io_index && self) { CountFault(F_CRASH); IoCrashDump(); }     // power loss just after the program ended
  g_sh->kind = kind; g_sh->code = code; g_sh->now = g_now;
  g_active = false;
  syscall(SYS_exit_group, 0);
  for (;;) {}
}
void Verdict(const char* kind, const std::string& m) {
  snprintf(g_sh->verdict, sizeof g_sh->verdict, "%s", kind);
  if (!g_sh->nrace && self) { int* n = &g_sh->nrace; for (int i = std::min(self->csn, 256) - 1; i >= 0 && *n < 16; --i) g_sh->race_pcs[(*n)++] = self->cs[i]; }
  snprintf(g_sh->message, sizeof g_sh->message, "%s", m.c_str());
  EndRun(OUT_VERDICT, 0);
}
void Note(const std::string& s) {
  if (!g_sh) return;
  size_t n = s.size();
  if (g_sh->nnotes + n + 2 > kMaxNotes) return;
  memcpy(g_sh->notes + g_sh->nnotes, s.data(), n); g_sh->nnotes += n; g_sh->notes[g_sh->nnotes++] = '\n';
}
std::string TakeNotes() { return std::string(g_sh->notes, g_sh->nnotes); }

// ------------------------------------------------------------ decisions
static i64 ScriptLookup(char type, u64 key, i64 def) {
  ScriptIdx* s = g_script[(int)type];
  if (!s) return def;
  while (s->i < s->v.size() && s->v[s->i].key < key) s->i++;
  if (s->i < s->v.size() && s->v[s->i].key == key) return s->v[s->i].val;
  return def;
}
i64 ScriptFault(u64 key) {   // faults are keyed by (class,index); different classes interleave, so search
  ScriptIdx* s = g_script[(int)'F'];
  if (!s) return 0;
  for (auto& r : s->v) if (r.key == key) return r.val;
  return 0;
}
bool Scripted() { return g_plan->scripted; }

// ------------------------------------------------------------ switching
// errno belongs to the simulated thread: a switch between a call and the look at its errno must not change it
static void FutexWait(std::atomic<int>* a) { int e = errno; while (a->load() == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a->store(0); errno = e; }
static void FutexPost(std::atomic<int>* a) { int e = errno; a->store(1); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); errno = e; }
typedef int (*join_t)(pthread_t, void**);
static join_t real_join;
static void Reap() {
  if (g_reap) { TCB* t = g_reap; g_reap = nullptr; Real("pthread_join", real_join)(t->real, nullptr); t->real_joined = true;
    if (t->detached) { t->st = S_FREE; } }
}
static void SwitchTo(TCB* next, bool wait) {
  if (next == self) return;
  g_sh->switches++;
  TCB* me = self;
  FutexPost(&next->go);
  if (wait) { FutexWait(&me->go); Reap(); }
}
static std::string DescribeThreads() {
  static const char* bk[] = {"-", "mutex", "condition", "semaphore", "join", "sleep", "rwlock", "once", "static-init"};
  std::string s;
  for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_BLOCKED || g_tcb[i].st == S_RUNNABLE) {
    char b[160]; snprintf(b, sizeof b, "T%d:%s%s ", i, g_tcb[i].st == S_RUNNABLE ? "runnable" : "blocked-on-", g_tcb[i].st == S_BLOCKED ? bk[g_tcb[i].bk] : "");
    s += b;
  }
  return s;
}
static void FireTimers() {
  for (int i = 0; i < g_nthreads; ++i) { TCB& t = g_tcb[i];
    if (t.st == S_BLOCKED && t.deadline >= 0 && t.deadline <= g_now) { t.st = S_RUNNABLE; t.timed_out = true; } }
}
static TCB* PickNext(bool self_ok) {
  u64 step = ++g_sh->steps;
  if (step > g_plan->step_limit) Verdict("no-progress", "step limit " + std::to_string(g_plan->step_limit) + " reached: " + DescribeThreads());
  g_now += 300;
  Plan& P = *g_plan;
  // Liveness is judged under fairness: in the second half of the step budget no more faults are injected and
  // the threads take turns; a run that still does not end is stuck.
  bool fair = step > P.step_limit / 2;
  if (fair) {
  } else if (P.scripted) {
    i64 w = ScriptLookup('W', step, -1);
    if (w >= 0 && w < g_nthreads && g_tcb[w].st == S_BLOCKED && g_tcb[w].bk == B_COND) { g_tcb[w].st = S_RUNNABLE; g_tcb[w].spurious = true; CountFault(F_SPURIOUS_WAKE); Log('W', step, w); }
    i64 j = ScriptLookup('J', step, 0);
    if (j) { g_rt_off += j; CountFault(F_CLOCK_JUMP); Log('J', step, j); }
    i64 te = ScriptLookup('T', step, 0);
    if (te) { i64 best = -1; for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_BLOCKED && g_tcb[i].deadline >= 0 && (best < 0 || g_tcb[i].deadline < best)) best = g_tcb[i].deadline;
      if (best > g_now) { g_now = best; CountFault(F_TIMER_EARLY); Log('T', step, 1); } }
  } else {
    if (P.p_spurious > 0 && g_srng.chance(P.p_spurious)) {
      int c[kMaxThreads], n = 0;
      for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_BLOCKED && g_tcb[i].bk == B_COND) c[n++] = i;
      if (n) { int w = c[g_srng.below(n)]; g_tcb[w].st = S_RUNNABLE; g_tcb[w].spurious = true; CountFault(F_SPURIOUS_WAKE); Log('W', step, w); }
    }
    if (P.p_clock_jump > 0 && g_srng.chance(P.p_clock_jump)) {
      i64 j = ((i64)g_srng.below(4000000) - 2000000) * 1000000000LL / (1 + (i64)g_srng.below(100000)); if (!j) j = 1;
      g_rt_off += j; CountFault(F_CLOCK_JUMP); Log('J', step, j);
    }
    if (P.p_timer_early > 0 && g_srng.chance(P.p_timer_early)) {
      i64 best = -1; for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_BLOCKED && g_tcb[i].deadline >= 0 && (best < 0 || g_tcb[i].deadline < best)) best = g_tcb[i].deadline;
      if (best > g_now) { g_now = best; CountFault(F_TIMER_EARLY); Log('T', step, 1); }
    }
    if (P.p_stall > 0 && g_srng.chance(P.p_stall)) {
      int k = g_srng.below(g_nthreads); g_tcb[k].stall_until = step + 1 + g_srng.below(400); CountFault(F_STALL);
    }
  }
  FireTimers();
  int run[kMaxThreads], n = 0;
  for (;;) {
    n = 0;
    for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_RUNNABLE && (&g_tcb[i] != self || self_ok)) run[n++] = i;
    if (n) break;
    i64 best = -1;
    for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_BLOCKED && g_tcb[i].deadline >= 0 && (best < 0 || g_tcb[i].deadline < best)) best = g_tcb[i].deadline;
    if (best < 0) Verdict("deadlock", DescribeThreads());
    if (best > g_now) g_now = best;
    FireTimers();
  }
  // default: stay, else next runnable in cyclic order
  int me = self ? self->id : 0, def = -1;
  if (self_ok && self->st == S_RUNNABLE) def = me;
  else { for (int k = 0; k < n; ++k) if (run[k] > me) { def = run[k]; break; } if (def < 0) def = run[0]; }
  if (fair) { def = -1; for (int k = 0; k < n; ++k) if (run[k] > g_last_rr) { def = run[k]; break; } if (def < 0) def = run[0]; g_last_rr = def; }
  int pick = def;
  if (fair) {
  } else if (P.scripted) {
    i64 v = ScriptLookup('S', step, def);
    for (int k = 0; k < n; ++k) if (run[k] == v) pick = (int)v;
  } else {
    int f[kMaxThreads], m = 0;
    for (int k = 0; k < n; ++k) if (g_tcb[run[k]].stall_until <= step) f[m++] = run[k];
    if (!m) { memcpy(f, run, sizeof(int) * n); m = n; }
    bool def_in = false; for (int k = 0; k < m; ++k) if (f[k] == def) def_in = true;
    switch (P.strategy) {
      case 0: pick = def_in ? def : f[0]; break;
      case 1: pick = (def_in && def == me && !g_srng.chance(P.p_switch)) ? def : f[g_srng.below(m)]; break;
      case 2: {
        while (g_pct_i < g_pct_n && g_pct_points[g_pct_i] <= step) { if (self) self->prio = --g_pct_low; g_pct_i++; }
        u64 bp = 0; int b = f[0]; bool have = false;
        for (int k = 0; k < m; ++k) if (!have || g_tcb[f[k]].prio > bp) { bp = g_tcb[f[k]].prio; b = f[k]; have = true; }
        pick = b; break;
      }
      case 3: { int b = -1; for (int k = 0; k < m; ++k) if (f[k] > g_last_rr) { b = f[k]; break; } if (b < 0) b = f[0]; pick = b; g_last_rr = pick; break; }
      case 4: {
        if (step >= g_starve_until) { g_starve = g_srng.below(g_nthreads); g_starve_until = step + 20 + g_srng.below(600); }
        int g[kMaxThreads], q = 0; for (int k = 0; k < m; ++k) if (f[k] != g_starve) g[q++] = f[k];
        if (!q) { pick = f[0]; break; }
        bool di = false; for (int k = 0; k < q; ++k) if (g[k] == def) di = true;
        pick = (di && def == me && !g_srng.chance(P.p_switch)) ? def : g[g_srng.below(q)];
        break;
      }
    }
  }
  g_last_rr = pick;
  if (pick != def) Log('S', step, pick);
  g_sh->hash = (g_sh->hash + (u64)pick * 0x9E37 + step) * 0xff51afd7ed558ccdULL;
  return &g_tcb[pick];
}
bool SchedPoint(int what) {
  if (!Active() || self->quiet > 1000) return false;
  HashS((u64)what << 8 | self->id);
  TCB* nx = PickNext(true);
  SwitchTo(nx, true);
  return true;
}
void Yield() { SchedPoint(90); }
void Block(BlockKind k, const void* obj, i64 deadline, const void* obj2) {
  self->st = S_BLOCKED; self->bk = k; self->obj = obj; self->obj2 = obj2; self->deadline = deadline; self->timed_out = self->signaled = self->spurious = false;
  TCB* nx = PickNext(true);   // self may be woken by a timer or spuriously inside PickNext
  if (nx != self) SwitchTo(nx, true);
  self->st = S_RUNNABLE; self->bk = B_NONE; self->deadline = -1; self->obj = nullptr;
}
void WakeAll(BlockKind k, const void* obj) {
  for (int i = 0; i < g_nthreads; ++i) { TCB& t = g_tcb[i]; if (t.st == S_BLOCKED && t.bk == k && t.obj == obj) { t.st = S_RUNNABLE; t.signaled = true; } }
}
bool WakeOne(BlockKind k, const void* obj) {
  int c[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthreads; ++i) { TCB& t = g_tcb[i]; if (t.st == S_BLOCKED && t.bk == k && t.obj == obj) c[n++] = i; }
  if (!n) return false;
  int pick = c[0];
  if (n > 1) {
    u64 step = g_sh->steps;
    if (g_plan->scripted) { i64 v = ScriptLookup('N', step, c[0]); for (int i = 0; i < n; ++i) if (c[i] == v) pick = (int)v; }
    else if (g_plan->strategy) pick = c[g_srng.below(n)];
    if (pick != c[0]) Log('N', step, pick);
  }
  g_tcb[pick].st = S_RUNNABLE; g_tcb[pick].signaled = true;
  return true;
}
// ------------------------------------------------------------ preemption at memory accesses
static void DrawNextAccess() {
  if (g_plan->scripted) {
    ScriptIdx* s = g_script[(int)'A'];
    if (!s) { g_next_access = ~0ULL; return; }
    while (s->i < s->v.size() && s->v[s->i].key <= g_sh->accesses) s->i++;
    g_next_access = s->i < s->v.size() ? s->v[s->i].key : ~0ULL;
  } else if (g_plan->access_gap) g_next_access = g_sh->accesses + 1 + g_srng.below(2 * g_plan->access_gap);
  else g_next_access = ~0ULL;
}
u64 NextAccess() { return g_next_access; }
static u64 g_crash_access = 0;
void AccessPreempt() {   // called when accesses >= next_access
  u64 acc = g_sh->accesses;
  if (acc > g_plan->access_limit) Verdict("no-progress", "memory access limit reached: " + DescribeThreads());
  if (g_crash_access && acc >= g_crash_access) { Log('C', acc, 1); CountFault(F_CRASH); IoCrashDump(); EndRun(OUT_CRASHED, 0); }
  int run[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_RUNNABLE && &g_tcb[i] != self) run[n++] = i;
  int pick = -1;
  if (g_plan->scripted) {
    ScriptIdx* s = g_script[(int)'A'];
    if (s && s->i < s->v.size() && s->v[s->i].key == acc) { for (int i = 0; i < n; ++i) if (run[i] == s->v[s->i].val) pick = run[i]; }
    DrawNextAccess();
  } else { DrawNextAccess(); if (n) pick = run[g_srng.below(n)]; }
  if (pick >= 0) { Log('A', acc, pick); g_sh->preempts++; SwitchTo(&g_tcb[pick], true); }
}
void SetCrashAccess(u64 a) { g_crash_access = a; }
u64 CrashAccess() { return g_crash_access; }

// ------------------------------------------------------------ threads
static TCB* NewTcb() {
  for (int i = 0; i < kMaxThreads; ++i) if (g_tcb[i].st == S_FREE) {
    TCB* t = &g_tcb[i];
    u32 ep = t->epoch; VC vc = t->vc;
    memset((void*)t, 0, sizeof *t);
    t->id = i; t->epoch = ep; t->vc = vc; t->deadline = -1;
    if (i >= g_nthreads) g_nthreads = i + 1;
    t->stack_lo = i == 0 ? kStackBase : kStackBase + kStack0 + (i - 1) * kStackN;
    t->stack_hi = t->stack_lo + (i == 0 ? kStack0 : kStackN);
    return t;
  }
  return nullptr;
}
static void Finish(TCB* t) {
  HashS(0x7700 | t->id);
  t->st = S_FINISHED; t->bk = B_NONE;
  WakeAll(B_JOIN, t);
  g_reap = t;
  TCB* nx = PickNext(false);
  g_sh->switches++;
  FutexPost(&nx->go);
  self = nullptr;
}
static void ExitKeyDtor(void* p) {
  TCB* t = (TCB*)p;
  if (t->exit_rounds++ < 3) pthread_setspecific(g_exit_key, t);
  else Finish(t);
}
static void* Tramp(void* p) {
  TCB* t = (TCB*)p;
  static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);   // one thread runs at a time
  FutexWait(&t->go); self = t; Reap();
  pthread_setspecific(g_exit_key, t);
  t->ret = t->start(t->arg);
  return t->ret;
}
__attribute__((constructor(101))) static void Early() { pthread_key_create(&g_exit_key, ExitKeyDtor); }
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static create_t real_create;
static int StartThread(TCB* t) {
  pthread_attr_t at; pthread_attr_init(&at);
  void* st = mmap((void*)t->stack_lo, t->stack_hi - t->stack_lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (st == MAP_FAILED) { perror("stack"); _exit(96); }
  if (g_plan->races) ClearShadow(t->stack_lo, t->stack_hi - t->stack_lo);
  pthread_attr_setstack(&at, (void*)t->stack_lo, t->stack_hi - t->stack_lo);
  int r = Real("pthread_create", real_create)(&t->real, &at, Tramp, t);
  pthread_attr_destroy(&at);
  return r;
}
static TCB* Find(pthread_t h) { for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st != S_FREE && g_tcb[i].real == h) return &g_tcb[i]; return nullptr; }

static void InitStrategy() {
  Plan& P = *g_plan;
  g_srng = Rng(P.seed * 2 + 1); g_frng = Rng(P.seed * 2 + 0x5555);
  g_pct_n = g_pct_i = 0; g_pct_low = 1000;
  if (P.strategy == 2) { g_pct_n = std::min(P.pct_depth, 60); for (int i = 0; i < g_pct_n; ++i) g_pct_points[i] = 1 + g_srng.below(P.pct_len); std::sort(g_pct_points, g_pct_points + g_pct_n); }
  for (int i = 0; i < 128; ++i) g_script[i] = nullptr;
  if (P.scripted) {
    for (auto& r : P.script) {
      int c = (int)(u8)r.type & 127;
      if (!g_script[c]) { g_script[c] = new (IntAllocBytes(sizeof(ScriptIdx))) ScriptIdx(); g_script[c]->v.reserve(P.script.size()); }
      g_script[c]->v.push_back(r);
    }
    for (int i = 0; i < 128; ++i) if (g_script[i]) std::sort(g_script[i]->v.begin(), g_script[i]->v.end(), [](const Rec& a, const Rec& b) { return a.key < b.key; });
  }
  DrawNextAccess();
}
static CrashPlan g_crash;
void SetCrash(const CrashPlan& c) { g_crash = c; }
const CrashPlan& GetCrash() { return g_crash; }

struct Body { const std::function<int()>* f; };
static void* MainThread(void* p) {
  Body* b = (Body*)p;
  int rc = (*b->f)();
  g_active = true;
  std::cout.flush(); IoFlushStdout();
  EndRun(OUT_EXIT, rc & 255);
}
static uptr g_cxx_lo = 0, g_cxx_hi = 0;
static bool FromCxxLibrary(void* ra) {
  if (!g_cxx_hi) {
    g_cxx_hi = 1;
    dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) { 
      if (i->dlpi_name && strstr(i->dlpi_name, "libstdc++")) for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { g_cxx_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; g_cxx_hi = g_cxx_lo + i->dlpi_phdr[k].p_memsz; }
      return 0; }, nullptr);
  }
  return (uptr)ra >= g_cxx_lo && (uptr)ra < g_cxx_hi;
}
static void* (*g_real_catch)(void*) = nullptr; static void (*g_real_rethrow)() = nullptr;
extern "C" void* __cxa_begin_catch(void* e) throw() {
  if (!g_real_catch) g_real_catch = (void* (*)(void*))dlsym(RTLD_NEXT, "__cxa_begin_catch");
  if (g_active && g_sh && FromCxxLibrary(__builtin_return_address(0))) g_sh->absorbed++;
  return g_real_catch(e);
}
extern "C" void __cxa_rethrow() {
  if (!g_real_rethrow) g_real_rethrow = (void (*)())dlsym(RTLD_NEXT, "__cxa_rethrow");
  if (g_active && g_sh && g_sh->absorbed && FromCxxLibrary(__builtin_return_address(0))) g_sh->absorbed--;
  g_real_rethrow(); __builtin_unreachable();
}
void WarmCxx() { try { throw 1; } catch (int) {} try { try { throw 1; } catch (int) { throw; } } catch (int) {} FromCxxLibrary(nullptr); }
void NoteFaultStack() {   // where the first targeted fault hit
  if (!g_sh || g_sh->nfault || !self) return;
  for (int i = std::min(self->csn, 256) - 1; i >= 0 && g_sh->nfault < 24; --i) g_sh->fault_pcs[g_sh->nfault++] = self->cs[i];
}
static void FatalSignal(int s, siginfo_t* si, void* uc) {   // genuine memory fault or assert in the code under test
  if (getenv("DSIM_DEBUG_SIGNAL")) { char b[200]; int n = snprintf(b, sizeof b, "signal %d pc %p addr %p pid %d\n", s, (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP], si->si_addr, (int)getpid()); syscall(SYS_write, 1023, b, n); for (;;) syscall(SYS_pause); }
  if (g_sh) {
    g_sh->kind = OUT_SIGNAL; g_sh->code = s; g_sh->now = g_now; g_sh->null_page = s == SIGSEGV && si->si_code > 0 && si->si_code != SI_KERNEL && (uptr)si->si_addr < 4096;
    if (self) {
      int* n = &g_sh->nrace; *n = 0; uptr ip = (uptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
      if (s != SIGABRT && ip < 0x80000000) g_sh->race_pcs[(*n)++] = (u32)ip + 1;
      for (int i = std::min(self->csn, 256) - 1; i >= 0 && *n < 16; --i) g_sh->race_pcs[(*n)++] = self->cs[i];
    }
  }
  syscall(SYS_exit_group, 0);
}

static void Redirect(const std::string& path, int fd, int flags) {
  if (path.empty()) return;
  int f = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), flags, 0644);
  if (f < 0) _exit(95);
  if (f != fd) { dup2(f, fd); syscall(SYS_close, f); }
}

static bool g_reserved = false;
static void Reserve() {
  if (g_reserved) return;
  g_reserved = true;
}

Outcome Run(const Plan& plan, const std::function<int()>& body) {
  { static bool warm = false; if (!warm) { warm = true; WarmCxx(); } }
  if (!g_sh) {
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_sh == MAP_FAILED) { perror("shared"); _exit(94); }
  }
  Reserve();
  memset((void*)g_sh, 0, offsetof(Shared, trace)); g_sh->nnotes = 0; g_sh->nrace = 0; g_sh->nfault = 0; g_sh->absorbed = 0; g_sh->null_page = false;
  if (plan.profile) memset((void*)g_sh->sites, 0, sizeof g_sh->sites);
  g_sh->kind = OUT_TIMEOUT;
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(93); }
  if (pid == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = FatalSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(sg, &sa, nullptr);
    signal(SIGALRM, SIG_DFL);
    alarm(120);
    Plan* p = new (IntAllocBytes(sizeof(Plan))) Plan(plan); g_plan = p;
    g_now = 0; g_rt_off = 0;
    Redirect(plan.stdin_path, 0, O_RDONLY);
    Redirect(plan.stdout_path, 1, O_WRONLY | O_CREAT | O_TRUNC);
    Redirect(plan.stderr_path, 2, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND);
    memset((void*)g_tcb, 0, sizeof g_tcb);
    for (int i = 0; i < kMaxThreads; ++i) g_tcb[i].epoch = 1;
    g_nthreads = 0; g_crash_access = g_crash.on ? g_crash.access_index : 0;
    HeapInitRun(); RaceInitRun(); IoInitRun();
    InitStrategy();
    TCB* t = NewTcb();
    Body b = {&body};
    t->start = MainThread; t->arg = &b; t->prio = g_srng.next() | (1ULL << 63);
    t->st = S_RUNNABLE;
    memset(&t->vc, 0, sizeof t->vc); t->vc.c[t->id] = t->epoch;
    g_sh->threads = 1;
    if (StartThread(t)) _exit(92);
    g_active = true;
    if (g_crash_access) g_next_access = g_crash_access;
    FutexPost(&t->go);
    for (;;) pause();
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.kind = g_sh->kind; o.code = g_sh->code; o.null_page = g_sh->null_page; o.absorbed = g_sh->absorbed;
  if (WIFSIGNALED(st)) { o.kind = WTERMSIG(st) == SIGALRM ? OUT_TIMEOUT : OUT_SIGNAL; o.code = WTERMSIG(st); }
  else if (WEXITSTATUS(st) != 0) { o.kind = OUT_TIMEOUT; o.code = WEXITSTATUS(st); }
  o.verdict = g_sh->verdict; o.message = g_sh->message;
  o.hash = g_sh->hash; o.sched_hash = g_sh->sched_hash; o.steps = g_sh->steps; o.accesses = g_sh->accesses; o.switches = g_sh->switches; o.preempts = g_sh->preempts;
  o.threads = g_sh->threads; o.sim_ns = g_sh->now;
  memcpy(o.ops, g_sh->ops, sizeof o.ops); memcpy(o.faults, g_sh->faults, sizeof o.faults);
  o.trace.assign(g_sh->trace, g_sh->trace + g_sh->ntrace); o.trace_overflow = g_sh->overflow;
  return o;
}
std::vector<Site> LastSites(int c) {
  std::vector<Site> v;
  for (size_t i = 0; i < kSites; ++i) { const Shared::SiteSlot& s = g_sh->sites[c][i]; if (s.stack) { Site t; t.stack = s.stack; t.count = s.count; t.index.assign(s.index, s.index + std::min<u64>(s.count, 5)); if (s.count > 5) t.index.push_back(s.index[5]); v.push_back(t); } }
  std::sort(v.begin(), v.end(), [](const Site& a, const Site& b) { return a.index[0] < b.index[0]; });
  return v;
}
std::vector<uintptr_t> LastFaultPcs() { return std::vector<uintptr_t>(g_sh->fault_pcs, g_sh->fault_pcs + g_sh->nfault); }
std::vector<uintptr_t> LastRacePcs() { return std::vector<uintptr_t>(g_sh->race_pcs, g_sh->race_pcs + g_sh->nrace); }

std::string Describe(const Outcome& o) {
  char b[256];
  switch (o.kind) {
    case OUT_EXIT: snprintf(b, sizeof b, "exit status %d", o.code); return b;
    case OUT_ABORT: return "abnormal termination (abort) " + o.message;
    case OUT_SIGNAL: snprintf(b, sizeof b, "killed by signal %d", o.code); return b;
    case OUT_VERDICT: return o.verdict + ": " + o.message;
    case OUT_CRASHED: return "simulated crash";
    default: snprintf(b, sizeof b, "no answer (infrastructure, code %d)", o.code); return b;
  }
}
}  // namespace dsim

// ==================================================================== interposed functions
using namespace dsim;
#define ACTIVE (g_active && self)
typedef int (*m1_t)(pthread_mutex_t*);

static i64 AbsToDeadline(const struct timespec* ts, clockid_t clk) {
  i64 abs = (i64)ts->tv_sec * 1000000000LL + ts->tv_nsec;
  i64 d = clk == CLOCK_REALTIME ? abs - (g_plan->epoch_s * 1000000000LL + g_rt_off) : abs - 1000LL * 1000000000LL;
  return d < 0 ? 0 : d;
}
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  static m1_t real; if (!ACTIVE) return Real("pthread_mutex_lock", real)(m);
  SchedPoint(1);
  int kind = m->__data.__kind & 3;
  if (m->__data.__lock && m->__data.__owner == self->id + 1) {
    if (kind == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
    if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  while (m->__data.__lock) Block(B_MUTEX, m, -1);
  m->__data.__lock = 1; m->__data.__owner = self->id + 1; m->__data.__count = 1;
  Acquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  static m1_t real; if (!ACTIVE) return Real("pthread_mutex_trylock", real)(m);
  SchedPoint(2);
  if (m->__data.__lock) {
    if (m->__data.__owner == self->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->__data.__count++; return 0; }
    return EBUSY;
  }
  m->__data.__lock = 1; m->__data.__owner = self->id + 1; m->__data.__count = 1;
  Acquire(m);
  return 0;
}
static int TimedLock(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  SchedPoint(2);
  i64 d = AbsToDeadline(ts, clk);
  while (m->__data.__lock) { Block(B_MUTEX, m, d); if (m->__data.__lock && NowNs() >= d) return ETIMEDOUT; }
  m->__data.__lock = 1; m->__data.__owner = self->id + 1; m->__data.__count = 1;
  Acquire(m);
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  static int (*real)(pthread_mutex_t*, const struct timespec*); if (!ACTIVE) return Real("pthread_mutex_timedlock", real)(m, ts);
  return TimedLock(m, CLOCK_REALTIME, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  static int (*real)(pthread_mutex_t*, clockid_t, const struct timespec*); if (!ACTIVE) return Real("pthread_mutex_clocklock", real)(m, c, ts);
  return TimedLock(m, c, ts);
}
static void UnlockRaw(pthread_mutex_t* m) {
  if (!m->__data.__lock || m->__data.__owner != self->id + 1) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_NORMAL) Verdict("misuse", "mutex unlocked by a thread that does not hold it");
    return;
  }
  if (--m->__data.__count) { if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) return; m->__data.__count = 0; }
  Release(m);
  m->__data.__lock = 0; m->__data.__owner = 0;
  WakeAll(B_MUTEX, m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static m1_t real; if (!ACTIVE) return Real("pthread_mutex_unlock", real)(m);
  UnlockRaw(m);
  SchedPoint(3);
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  static int (*real)(pthread_mutex_t*, const pthread_mutexattr_t*);
  if (ACTIVE) DropSync(m);
  return Real("pthread_mutex_init", real)(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  static m1_t real; if (!ACTIVE) return Real("pthread_mutex_destroy", real)(m);
  if (m->__data.__lock) Verdict("misuse", "mutex destroyed while locked");
  DropSync(m);
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  static int (*real)(pthread_cond_t*, const pthread_condattr_t*);
  return Real("pthread_cond_init", real)(c, a);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*); if (!ACTIVE) return Real("pthread_cond_destroy", real)(c);
  for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_BLOCKED && g_tcb[i].bk == B_COND && g_tcb[i].obj == c) Verdict("misuse", "condition variable destroyed while a thread waits on it");
  return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline) {
  SchedPoint(4);
  unsigned cnt = m->__data.__count;
  if (m->__data.__owner == self->id + 1) m->__data.__count = 1;
  UnlockRaw(m);
  Block(B_COND, c, deadline);
  bool to = self->timed_out && !self->signaled;
  while (m->__data.__lock) Block(B_MUTEX, m, -1);
  m->__data.__lock = 1; m->__data.__owner = self->id + 1; m->__data.__count = cnt ? cnt : 1;
  Acquire(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*); if (!ACTIVE) return Real("pthread_cond_wait", real)(c, m);
  return CondWait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); if (!ACTIVE) return Real("pthread_cond_timedwait", real)(c, m, ts);
  return CondWait(c, m, AbsToDeadline(ts, (c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); if (!ACTIVE) return Real("pthread_cond_clockwait", real)(c, m, k, ts);
  return CondWait(c, m, AbsToDeadline(ts, k));
}
int pthread_cond_signal(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*); if (!ACTIVE) return Real("pthread_cond_signal", real)(c);
  SchedPoint(5); WakeOne(B_COND, c); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*); if (!ACTIVE) return Real("pthread_cond_broadcast", real)(c);
  SchedPoint(6); WakeAll(B_COND, c); return 0;
}
// rwlock: first int = readers, second = writer tid+1
struct RW { int readers; int writer; };
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  static int (*real)(pthread_rwlock_t*); if (!ACTIVE) return Real("pthread_rwlock_rdlock", real)(l);
  SchedPoint(7); RW* r = (RW*)l; while (r->writer) Block(B_RW, l, -1); r->readers++; Acquire(l); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  static int (*real)(pthread_rwlock_t*); if (!ACTIVE) return Real("pthread_rwlock_wrlock", real)(l);
  SchedPoint(8); RW* r = (RW*)l; while (r->writer || r->readers) Block(B_RW, l, -1); r->writer = self->id + 1; Acquire(l); Acquire((char*)l + 1); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  static int (*real)(pthread_rwlock_t*); if (!ACTIVE) return Real("pthread_rwlock_tryrdlock", real)(l);
  SchedPoint(7); RW* r = (RW*)l; if (r->writer) return EBUSY; r->readers++; Acquire(l); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  static int (*real)(pthread_rwlock_t*); if (!ACTIVE) return Real("pthread_rwlock_trywrlock", real)(l);
  SchedPoint(8); RW* r = (RW*)l; if (r->writer || r->readers) return EBUSY; r->writer = self->id + 1; Acquire(l); Acquire((char*)l + 1); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  static int (*real)(pthread_rwlock_t*); if (!ACTIVE) return Real("pthread_rwlock_unlock", real)(l);
  RW* r = (RW*)l;
  if (r->writer) { r->writer = 0; Release(l); } else { r->readers--; ReleaseMerge((char*)l + 1); }
  WakeAll(B_RW, l); SchedPoint(9); return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  static int (*real)(pthread_once_t*, void (*)(void)); if (!ACTIVE) return Real("pthread_once", real)(o, f);
  SchedPoint(10);
  while (*o == 1) Block(B_ONCE, o, -1);
  if (*o == 2) { Acquire(o); return 0; }
  *o = 1;
  struct G { pthread_once_t* o; bool ok = false; ~G() { if (!ok) *o = 0; else { *o = 2; if (ACTIVE) Release(o); } if (ACTIVE) WakeAll(B_ONCE, o); } } g{o};
  f(); g.ok = true;
  return 0;
}
int __cxa_guard_acquire(u64* g) {
  u8* b = (u8*)g;
  if (b[0]) { if (ACTIVE) Acquire(g); return 0; }
  if (!ACTIVE) { b[1] = 1; return 1; }
  SchedPoint(11);
  while (b[1] && !b[0]) Block(B_GUARD, g, -1);
  if (b[0]) { Acquire(g); return 0; }
  b[1] = 1; return 1;
}
void __cxa_guard_release(u64* g) { u8* b = (u8*)g; b[0] = 1; b[1] = 0; if (ACTIVE) { Release(g); WakeAll(B_GUARD, g); } }
void __cxa_guard_abort(u64* g) { u8* b = (u8*)g; b[1] = 0; if (ACTIVE) WakeAll(B_GUARD, g); }

// semaphores: first int is the value
int sem_init(sem_t* s, int sh, unsigned v) {
  static int (*real)(sem_t*, int, unsigned); if (!ACTIVE) return Real("sem_init", real)(s, sh, v);
  memset(s, 0, sizeof *s); *(int*)s = (int)v; DropSync(s); return 0;
}
int sem_destroy(sem_t* s) {
  static int (*real)(sem_t*); if (!ACTIVE) return Real("sem_destroy", real)(s);
  for (int i = 0; i < g_nthreads; ++i) if (g_tcb[i].st == S_BLOCKED && g_tcb[i].bk == B_SEM && g_tcb[i].obj == s) Verdict("misuse", "semaphore destroyed while a thread waits on it");
  DropSync(s); return 0;
}
static int SemWait(sem_t* s, i64 d) {
  SchedPoint(12);
  while (*(int*)s <= 0) {
    if (IoFault(OP_SEM, true) == F_EINTR) { errno = EINTR; return -1; }
    Block(B_SEM, s, d);
    if (*(int*)s <= 0 && d >= 0 && NowNs() >= d) { errno = ETIMEDOUT; return -1; }
  }
  --*(int*)s; Acquire(s); return 0;
}
int sem_wait(sem_t* s) { static int (*real)(sem_t*); if (!ACTIVE) return Real("sem_wait", real)(s); return SemWait(s, -1); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { static int (*real)(sem_t*, const struct timespec*); if (!ACTIVE) return Real("sem_timedwait", real)(s, ts); return SemWait(s, AbsToDeadline(ts, CLOCK_REALTIME)); }
int sem_trywait(sem_t* s) {
  static int (*real)(sem_t*); if (!ACTIVE) return Real("sem_trywait", real)(s);
  SchedPoint(12); if (*(int*)s <= 0) { errno = EAGAIN; return -1; } --*(int*)s; Acquire(s); return 0;
}
int sem_post(sem_t* s) {
  static int (*real)(sem_t*); if (!ACTIVE) return Real("sem_post", real)(s);
  ReleaseMerge(s); ++*(int*)s; WakeAll(B_SEM, s); SchedPoint(13); return 0;
}
int sem_getvalue(sem_t* s, int* v) { static int (*real)(sem_t*, int*); if (!ACTIVE) return Real("sem_getvalue", real)(s, v); *v = *(int*)s; return 0; }

// threads
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  if (!ACTIVE) return Real("pthread_create", real_create)(h, a, f, arg);
  SchedPoint(14);
  if (IoFault(OP_THREAD, true) != F_NONE) return EAGAIN;
  TCB* t = NewTcb();
  if (!t) Verdict("no-progress", "more than 120 live threads");
  t->start = f; t->arg = arg; t->prio = g_srng.next() | (1ULL << 63);
  int ds = 0; if (a) pthread_attr_getdetachstate(a, &ds);
  t->detached = ds == PTHREAD_CREATE_DETACHED;
  RaceThreadStart(self, t);
  if (StartThread(t)) { t->st = S_FREE; return EAGAIN; }
  t->st = S_RUNNABLE;
  g_sh->threads++;
  *h = t->real;
  SchedPoint(15);
  return 0;
}
int pthread_join(pthread_t h, void** ret) {
  if (!ACTIVE) return Real("pthread_join", real_join)(h, ret);
  SchedPoint(16);
  TCB* t = Find(h);
  if (!t || t->detached) return ESRCH;
  if (t == self) return EDEADLK;
  while (t->st != S_FINISHED) Block(B_JOIN, t, -1);
  Reap();
  if (ret) *ret = t->ret;
  RaceThreadJoin(self, t);
  t->st = S_FREE;
  return 0;
}
int pthread_detach(pthread_t h) {
  static int (*real)(pthread_t); if (!ACTIVE) return Real("pthread_detach", real)(h);
  TCB* t = Find(h); if (!t) return ESRCH;
  t->detached = true; if (t->st == S_FINISHED && t->real_joined) t->st = S_FREE;
  return 0;
}
int sched_yield(void) { if (ACTIVE) SchedPoint(17); return 0; }
static int SleepNs(i64 ns) {
  if (ns <= 0) { SchedPoint(18); return 0; }
  SchedPoint(18); Block(B_SLEEP, nullptr, NowNs() + ns); return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
  static int (*real)(const struct timespec*, struct timespec*); if (!ACTIVE) return Real("nanosleep", real)(r, rem);
  return SleepNs((i64)r->tv_sec * 1000000000LL + r->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec* rem) {
  static int (*real)(clockid_t, int, const struct timespec*, struct timespec*); if (!ACTIVE) return Real("clock_nanosleep", real)(c, fl, r, rem);
  if (fl & TIMER_ABSTIME) return SleepNs(AbsToDeadline(r, c) - NowNs());
  return SleepNs((i64)r->tv_sec * 1000000000LL + r->tv_nsec);
}
int usleep(useconds_t us) { static int (*real)(useconds_t); if (!ACTIVE) return Real("usleep", real)(us); return SleepNs((i64)us * 1000); }
unsigned sleep(unsigned s) { static unsigned (*real)(unsigned); if (!ACTIVE) return Real("sleep", real)(s); SleepNs((i64)s * 1000000000LL); return 0; }

// clocks
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!ACTIVE) return (int)syscall(SYS_clock_gettime, c, ts);
  i64 v = NowNs() + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? g_plan->epoch_s * 1000000000LL + g_rt_off : 1000LL * 1000000000LL);
  if (v < 0) v = 0;
  ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
time_t time(time_t* t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
clock_t clock(void) { static clock_t (*real)(void); if (!ACTIVE) return Real("clock", real)(); return (clock_t)(NowNs() / 1000); }
int rand(void) { static int (*real)(void); if (ACTIVE) SchedPoint(19); return Real("rand", real)(); }

// process end
void exit(int code) {
  static void (*real)(int) __attribute__((noreturn));
  if (!ACTIVE) { if (!real) real = (void (*)(int))RealSym("exit"); real(code); }
  std::cout.flush(); IoFlushStdout();
  EndRun(OUT_EXIT, code & 255);
}
void abort(void) {
  if (ACTIVE) EndRun(OUT_ABORT, 134);
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(127);
}
}  // extern "C"
