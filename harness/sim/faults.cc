// Every program of the tool chain under injected faults of the file system, the allocator and the environment.
#include "jobs.h"
#include <string.h>
using namespace dsim;
static Plan Plain() { Plan p; p.strategy = 0; p.step_limit = 20000000; return p; }
struct FaultW : Workload { Job j; JobResult want; bool usable = false; Violation pre; uint64_t ops[OP_CLASSES]; std::vector<Site> sites[OP_CLASSES]; std::string Describe() { return j.what; } };
static Job AnyJob(Rng& r) {
  int k = r.below(20), sz = g_env.tier ? 7 : 4;
  if (k < 10) return GenTool(r, sz);
  if (k < 14) return GenDecode(r, sz);
  if (k < 16) { Job j = GenTune(r, sz); j.args.push_back("-threads"); j.args.push_back(std::to_string(r.range(1, 3))); j.threads_arg = ""; return j; }
  return GenLm(r, sz);
}
struct FaultBase : Prop {
  virtual bool Accept(FaultW& w) { return true; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<FaultW>(new FaultW); w->j = AnyJob(r);
    JobPrepare(w->j, g_env.scratch);
    Plan p = Plain(); p.profile = true; Outcome o = JobRun(w->j, p, g_env.scratch, 0, &w->want);
    w->pre = Universal(o, false); w->usable = o.ok_exit() && Accept(*w);
    memcpy(w->ops, o.ops, sizeof o.ops);
    for (int c : {OP_READ, OP_WRITE, OP_OPEN, OP_SYNC, OP_MMAP, OP_ALLOC, OP_SEEK, OP_TRUNC, OP_CLOSE, OP_THREAD}) w->sites[c] = LastSites(c);
    g_env.Reach((w->usable ? "tool_" : "rejected_") + w->j.tool);
    return w;
  }
  virtual bool Plans(FaultW& w, Rng& r, int k, Plan& p) = 0;
  virtual Violation Judge(FaultW& w, const Plan& p, Outcome& o) = 0;
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { FaultW& w = (FaultW&)ww; if (w.pre.bad()) { p = Plain(); return k == 0; } return Plans(w, r, k, p); }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    FaultW& w = (FaultW&)ww; if (!w.pre.bad()) return Judge(w, p, o);
    o = JobRun(w.j, p, g_env.scratch, 0, nullptr); return Universal(o, false);   // broken even without any fault
  }
  // exit status 0 promises the complete, correct result
  Violation FailStop(FaultW& w, const Plan& p, Outcome& o, const char* what) {
    JobResult got; o = JobRun(w.j, p, g_env.scratch, 0, &got);
    Violation v = Universal(o, true); if (v.bad()) { v.message += " (" + std::string(what) + ")"; return v; }
    if (o.ok_exit()) { std::string d = Diff(w.want, got); if (!d.empty()) return {"silent-loss", std::string(what) + " went unnoticed, exit status 0, but " + d}; g_env.Reach("survived"); }
    else g_env.Reach("stopped");
    return v;
  }
  std::string Hard(const Plan& p) { return std::string(kFaultName[p.hard_kind]) + " at " + kOpName[p.hard_class] + " number " + std::to_string(p.hard_index + 1) + (p.hard_sticky ? " and every later one" : ""); }
  bool Target(FaultW& w, Rng& r, Plan& p, const std::vector<std::pair<int, int>>& kinds, double sticky) {
    std::vector<std::pair<int, int>> c; for (auto& k : kinds) if (w.ops[k.first]) c.push_back(k);
    if (c.empty()) return false;
    auto k = c[r.below(c.size())]; p.hard_class = k.first; p.hard_kind = k.second; p.hard_sticky = r.chance(sticky);
    // half of the faults are spread over the operations, the others over the distinct calls leading to them
    uint64_t n = w.ops[k.first]; const std::vector<Site>& s = w.sites[k.first];
    if (s.size() > 1 && r.chance(0.6)) { const Site& t = s[r.below(s.size())]; p.hard_index = t.index[r.below(t.index.size())]; }
    else p.hard_index = r.chance(0.15) ? n - 1 : r.below(n);
    return true;
  }
};
struct InputFault : FaultBase {
  const char* Name() { return "input-fault-failstop"; }
  bool Plans(FaultW& w, Rng& r, int k, Plan& p) {
    if (!w.usable || k >= 8) return false;
    p = Plain(); p.seed = r.next(); p.strategy = r.chance(0.3) ? 1 : 0; if (r.chance(0.3)) { p.p_short_read = 0.3; }
    return Target(w, r, p, {{OP_READ, F_READ_EIO}, {OP_READ, F_READ_EIO}, {OP_READ, F_READ_EIO}, {OP_OPEN, F_OPEN_FAIL}, {OP_SEEK, F_SEEK_EIO}, {OP_MMAP, F_MMAP_ENOMEM}}, 0.5);
  }
  Violation Judge(FaultW& w, const Plan& p, Outcome& o) { return FailStop(w, p, o, Hard(p).c_str()); }
};
static Reg r1(new InputFault);
struct OutputFault : FaultBase {
  const char* Name() { return "output-fault-failstop"; }
  bool Plans(FaultW& w, Rng& r, int k, Plan& p) {
    if (!w.usable || k >= 8) return false;
    p = Plain(); p.seed = r.next(); p.strategy = r.chance(0.3) ? 1 : 0; if (r.chance(0.3)) p.p_short_write = 0.3;
    if (r.chance(0.3)) { size_t tot = 0; for (auto& kv : w.want.out) tot += kv.second.size(); p.disk_limit = 1 + r.below(tot + 64); return true; }
    return Target(w, r, p, {{OP_WRITE, F_WRITE_EIO}, {OP_WRITE, F_WRITE_ENOSPC}, {OP_WRITE, F_WRITE_ENOSPC}, {OP_SYNC, F_FSYNC_EIO}, {OP_TRUNC, F_TRUNC_EIO}, {OP_TRUNC, F_WRITE_ENOSPC}, {OP_CLOSE, F_CLOSE_EIO}}, 0.6);
  }
  Violation Judge(FaultW& w, const Plan& p, Outcome& o) { return FailStop(w, p, o, p.disk_limit ? ("a disk that is full after " + std::to_string(p.disk_limit) + " bytes").c_str() : Hard(p).c_str()); }
};
static Reg r2(new OutputFault);
struct Chunking : FaultBase {
  const char* Name() { return "io-chunking-transparent"; }
  bool Plans(FaultW& w, Rng& r, int k, Plan& p) {
    if (!w.usable || k >= 6) return false;
    p = Plain(); p.seed = r.next(); p.strategy = r.chance(0.3) ? 1 : 0; RandomBenignIo(r, p); if (k == 0) { p.p_short_read = p.p_short_write = 1; } return true;
  }
  Violation Judge(FaultW& w, const Plan& p, Outcome& o) {
    JobResult got; o = JobRun(w.j, p, g_env.scratch, 0, &got);
    Violation v = Universal(o, true); if (v.bad()) return v;
    if (!o.ok_exit()) return {"stopped-by-partial-io", "partial or interrupted transfers made the program end with " + Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)};
    std::string d = Diff(w.want, got); if (!d.empty()) return {"output-differs", "with partial or interrupted transfers " + d};
    return v;
  }
};
static Reg r3(new Chunking);
struct AllocFault : FaultBase {
  const char* Name() { return "alloc-failure-failstop"; }
  bool Plans(FaultW& w, Rng& r, int k, Plan& p) {
    if (!w.usable || k >= 8) return false;
    p = Plain(); p.seed = r.next(); p.strategy = r.chance(0.3) ? 1 : 0;
    return Target(w, r, p, {{OP_ALLOC, F_ALLOC_FAIL}, {OP_ALLOC, F_ALLOC_FAIL}, {OP_ALLOC, F_ALLOC_FAIL}, {OP_MMAP, F_MMAP_ENOMEM}, {OP_THREAD, F_THREAD_CREATE_FAIL}}, 0.3);
  }
  Violation Judge(FaultW& w, const Plan& p, Outcome& o) {
    Violation v = FailStop(w, p, o, Hard(p).c_str());
    // using the null pointer of a failed allocation ends the program at once, which is a way to stop unsuccessfully
    // streams of the C++ library absorb it; for those in memory a program has no way to learn of it but to ask each one
    if (v.kind == "silent-loss" && o.absorbed) { g_env.Reach("absorbed_by_stream"); return {}; }
    if (v.kind == "memory-fault" && o.null_page) { g_env.Reach("stopped_by_null_pointer"); return {}; }
    return v;
  }
};
static Reg r4(new AllocFault);
struct Determinism : FaultBase {
  const char* Name() { return "tool-deterministic"; }
  bool Plans(FaultW& w, Rng& r, int k, Plan& p) {
    if (!w.usable || k >= 5) return false;
    p = Plain(); RandomSchedule(r, p); if (r.chance(0.3)) p.strategy = 0; p.step_limit = 6000000; p.heap_seed = r.next() | 1; p.epoch_s = (int64_t)r.below(4000000000ULL); return true;
  }
  Violation Judge(FaultW& w, const Plan& p, Outcome& o) {
    JobResult got; o = JobRun(w.j, p, g_env.scratch, 0, &got);
    Violation v = Universal(o, true); if (v.bad()) return v;
    if (!o.ok_exit()) return {"run-failed", "a second run under another schedule, memory layout and clock ended with " + Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)};
    std::string d = Diff(w.want, got); if (!d.empty()) return {"output-differs", "under another schedule, memory layout and clock " + d};
    return v;
  }
};
static Reg r5(new Determinism);
