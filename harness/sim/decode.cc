// The decoder under simulated schedules.
#include "jobs.h"
using namespace dsim;

static Plan Plain() { Plan p; p.strategy = 0; p.step_limit = 20000000; return p; }
static bool Good(const Outcome& o) { return o.kind == OUT_EXIT && o.code == 0; }

struct DecW : Workload { Job j; JobResult want; bool usable = false; Violation pre; std::string Describe() { return j.what; } };

// splits id-prefixed records ("3 ||| ...") and renumbers them
static std::string Renumber(const std::string& s, int id) {
  std::string o; size_t p = 0;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size() - 1; std::string l = s.substr(p, e - p + 1); p = e + 1; if (l.compare(0, 6, "0 ||| ") == 0) l = std::to_string(id) + l.substr(1); o += l; }
  return o;
}
static int MaxSents() { return g_env.tier ? 12 : 7; }

struct DecodeProp : Prop {
  const char* Name() { return "decode-schedule-independent"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<DecW>(new DecW); w->j = GenDecode(r, MaxSents());
    JobPrepare(w->j, g_env.scratch);
    Outcome o = JobRun(w->j, Plain(), g_env.scratch, 1, &w->want);
    w->pre = Universal(o, false);
    w->usable = Good(o); g_env.Reach(w->usable ? "usable" : "rejected"); if (w->usable) { g_env.Reach("storage_" + w->j.what.substr(w->j.what.find("rules=") + 6, 3)); for (auto& f : w->j.outputs) g_env.Reach("with_" + f); }
    return w;
  }
  bool NextPlan(Workload& w, Rng& r, int k, Plan& p) {
    DecW& d = (DecW&)w; if (!d.usable && !d.pre.bad()) return false; if (k >= 10) return false;
    RandomSchedule(r, p); p.step_limit = 3000000; p.user = r.chance(0.15) ? 1 : r.range(2, g_env.tier ? 10 : 6); return true;
  }
  Violation Check(Workload& w, const Plan& p, Outcome& o) {
    DecW& d = (DecW&)w; JobResult got;
    if (d.pre.bad()) { o = JobRun(d.j, Plain(), g_env.scratch, 1, &got); return Universal(o, false); }
    o = JobRun(d.j, p, g_env.scratch, (int)p.user, &got);
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (!Good(o)) return {"decode-failed", "with " + std::to_string(p.user) + " threads the decoder ended with " + dsim::Describe(o) + " although the single-threaded run succeeds: " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    std::string df = Diff(d.want, got);
    if (!df.empty()) return {"output-differs", "with " + std::to_string(p.user) + " threads: " + df};
    return v;
  }
};
static Reg r1(new DecodeProp);

struct IsolProp : Prop {
  const char* Name() { return "decode-sentence-isolated"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<DecW>(new DecW); w->j = GenDecode(r, MaxSents());
    w->usable = true; JobPrepare(w->j, g_env.scratch);
    w->want.out["standard output"] = ""; for (auto& f : w->j.outputs) w->want.out[f] = "";
    for (size_t i = 0; i < w->j.units.size() && w->usable; ++i) {
      WriteFile(g_env.scratch + "/" + w->j.stdin_file, w->j.units[i]);
      JobResult one; Outcome o = JobRun(w->j, Plain(), g_env.scratch, 1, &one);
      if (!Good(o)) { w->usable = false; break; }
      for (auto& kv : one.out) w->want.out[kv.first] += kv.first == "nbest" || kv.first == "trace" ? Renumber(kv.second, (int)i) : kv.second;
    }
    WriteFile(g_env.scratch + "/" + w->j.stdin_file, w->j.files[w->j.stdin_file]);
    g_env.Reach(w->usable ? "usable" : "rejected");
    return w;
  }
  bool NextPlan(Workload& w, Rng& r, int k, Plan& p) {
    DecW& d = (DecW&)w; if (!d.usable || k >= 6) return false;
    if (k == 0) { p = Plain(); p.user = 1; return true; }
    RandomSchedule(r, p); p.step_limit = 3000000; p.user = r.chance(0.3) ? 1 : r.range(2, 6); return true;
  }
  Violation Check(Workload& w, const Plan& p, Outcome& o) {
    DecW& d = (DecW&)w; JobResult got; o = JobRun(d.j, p, g_env.scratch, (int)p.user, &got);
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (!Good(o)) return {"decode-failed", "a batch of sentences that can each be decoded alone ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    std::string df = Diff(d.want, got);
    if (!df.empty()) return {"record-differs", "records of the batch run (" + std::to_string(p.user) + " threads) against decoding each sentence alone: " + df};
    return v;
  }
};
static Reg r2(new IsolProp);
