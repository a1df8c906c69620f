// dsim: deterministic simulation runtime.
//
// A harness process links the real code of /repo (compiled with
// -fsanitize=thread instrumentation but WITHOUT libtsan) together with this
// runtime.  The runtime replaces libpthread's synchronisation, the clocks, the
// allocator, the file system calls and the sanitizer callbacks, so that inside
// Run() exactly one thread executes at a time and every nondeterministic choice
// is drawn from one seeded generator (or from a recorded script).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace dsim {

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};
uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL);

// ---------------------------------------------------------------- faults
enum FaultKind {
  F_NONE = 0,
  F_SHORT_READ, F_SHORT_WRITE, F_EINTR,            // benign: transparent to correct code
  F_READ_EIO, F_WRITE_EIO, F_WRITE_ENOSPC, F_OPEN_FAIL, F_FSYNC_EIO,
  F_MMAP_ENOMEM, F_ALLOC_FAIL, F_SEEK_EIO, F_TRUNC_EIO, F_CLOSE_EIO,
  F_CRASH,                                         // power loss at this I/O point
  F_SPURIOUS_WAKE, F_CLOCK_JUMP, F_STALL, F_TIMER_EARLY,
  F_THREAD_CREATE_FAIL, F_KIND_COUNT
};
extern const char* const kFaultName[F_KIND_COUNT];

// I/O operation classes (a hard fault names the n-th operation of one class)
enum OpClass { OP_READ = 0, OP_WRITE, OP_OPEN, OP_SYNC, OP_MMAP, OP_ALLOC, OP_SEEK, OP_TRUNC, OP_CLOSE, OP_THREAD, OP_SEM, OP_ANY_IO, OP_CLASSES };
extern const char* const kOpName[OP_CLASSES];

struct Rec { char type; uint64_t key; int64_t val; };   // type: 'D' decision, 'A' access preemption, 'F' fault, 'C' crash

struct Plan {
  uint64_t seed = 1;
  // scheduling
  int strategy = 0;             // 0 run-to-block, 1 random walk, 2 PCT, 3 round robin, 4 starve one thread
  double p_switch = 0.3;        // random walk: switch probability at a sync point
  int pct_depth = 3;
  uint64_t pct_len = 2000;      // expected number of scheduling points
  uint64_t access_gap = 0;      // mean gap between preemptions at memory accesses (0 = never)
  double p_spurious = 0;        // spurious wakeups of condition variables
  double p_clock_jump = 0;      // CLOCK_REALTIME jumps
  double p_timer_early = 0;     // timers fire although other threads could run (stalled CPU)
  double p_stall = 0;           // a runnable thread is put aside for a while
  uint64_t step_limit = 2000000;
  uint64_t access_limit = 400000000;
  bool races = true;            // happens-before race detection
  uint64_t heap_seed = 0;       // 0 = plain layout; otherwise perturbs addresses
  // clock
  int64_t epoch_s = 1500000000;
  // benign I/O faults
  double p_short_read = 0, p_short_write = 0, p_eintr = 0;
  // one hard fault: n-th operation of a class
  int hard_class = -1; uint64_t hard_index = 0; int hard_kind = F_NONE; bool hard_sticky = false;
  uint64_t disk_limit = 0;      // bytes writable before ENOSPC (0 = unlimited)
  // files
  std::string scratch;          // only files below this directory are subject to faults
  std::string stdin_path, stdout_path, stderr_path;
  bool std_faults = true;       // stdin/stdout are subject to faults too
  // replay
  bool scripted = false;
  std::vector<Rec> script;
  // crash recording (durability model): write a log of storage events
  bool record_storage = false;
  // crash point (0 = none)
  bool crash_on = false; uint64_t crash_io = 0, crash_access = 0; double crash_writeback = 0;
  bool profile = false;         // record from which call sites each class of operation is made (see LastSites)
  // property-specific parameter
  int64_t user = 0;
};

enum OutcomeKind { OUT_EXIT, OUT_ABORT, OUT_SIGNAL, OUT_VERDICT, OUT_CRASHED, OUT_TIMEOUT };
struct Outcome {
  OutcomeKind kind = OUT_EXIT;
  int code = 0;                   // exit code or signal
  std::string verdict, message;   // verdict: race|deadlock|no-progress|use-after-free|misuse|oracle...
  uint32_t absorbed = 0;          // exceptions that the C++ library caught and did not pass on (stream operations)
  bool null_page = false;         // OUT_SIGNAL: the access that killed the program was to the first page of memory
  uint64_t hash = 0;              // hash of the whole schedule and fault sequence
  uint64_t sched_hash = 0;        // hash of the order of synchronisation events only
  uint64_t steps = 0, accesses = 0, switches = 0, preempts = 0;
  int threads = 0;
  int64_t sim_ns = 0;
  uint64_t ops[OP_CLASSES] = {0};
  uint64_t faults[F_KIND_COUNT] = {0};
  std::vector<Rec> trace;
  bool trace_overflow = false;
  bool ok_exit() const { return kind == OUT_EXIT && code == 0; }
};

// Runs body in a forked child under the simulator.  body's return value is the exit status.
Outcome Run(const Plan& plan, const std::function<int()>& body);

// ---- callable from inside a run
bool Active();
[[noreturn]] void Verdict(const char* kind, const std::string& message);   // ends the run
void Event(uint64_t x);           // folds a value into the trace hash
int64_t NowNs();
uint64_t Step();
int Tid();
void Yield();
// suspends race detection / preemption in the calling thread (for oracle code)
struct Quiet { Quiet(); ~Quiet(); };
// shared report area: bytes survive the child
void Note(const std::string& s);  // appended, newline separated
std::string TakeNotes();          // parent: notes of the last run

std::string Describe(const Outcome& o);
std::vector<uintptr_t> LastRacePcs();
// operations of one class in the last run that was profiled, grouped by the calls leading to them
struct Site { uint64_t stack, count; std::vector<uint64_t> index; };   // index: the first, the last and some in between
std::vector<Site> LastSites(int op_class);
std::vector<uintptr_t> LastFaultPcs();   // calls leading to the first targeted fault, innermost first
}  // namespace dsim

// ---- crash points / durability model (used with Plan::record_storage)
namespace dsim {
struct CrashPlan { bool on = false; uint64_t io_index = 0; uint64_t access_index = 0; double writeback = 0.0; };
// set in the parent before Run(); the crash image of every tracked file is written to <path>.crash
void SetCrash(const CrashPlan& c);
}
