// Batch tuning under simulated schedules and clocks.
#include "jobs.h"
using namespace dsim;
static Plan Plain() { Plan p; p.strategy = 0; p.step_limit = 20000000; return p; }
static bool Good(const Outcome& o) { return o.kind == OUT_EXIT && o.code == 0; }
struct TuneW : Workload { Job j; JobResult want; bool usable = false; Violation pre; std::string Describe() { return j.what; } };
struct TuneProp : Prop {
  const char* Name() { return "tune-schedule-independent"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<TuneW>(new TuneW);
    std::string forest; int fs = 0; bool factors = false;
    if (r.chance(0.3)) {
      for (int t = 0; t < 4 && forest.empty(); ++t) {
        Job d = GenDecode(r, 4); bool has = false; for (auto& o : d.outputs) if (o == "forest") has = true;
        if (!has) { d.args.push_back("-forest_out"); d.args.push_back("@/forest"); d.outputs.push_back("forest"); }
        JobPrepare(d, g_env.scratch); JobResult res; Outcome o = JobRun(d, Plain(), g_env.scratch, 1, &res);
        if (Good(o)) { forest = res.out["forest"]; fs = (int)d.units.size(); for (auto& a : d.args) if (a == "-trg_factors") factors = true; }
      }
    }
    w->j = GenTune(r, g_env.tier ? 8 : 5, forest.empty() ? nullptr : &forest, fs);
    if (!forest.empty() && factors) {                                  // a forest with two target factors, references likewise
      std::string out, l; for (char c : w->j.files["ref"]) if (c == '\n') { out += l + " |COL| " + l + "\n"; l.clear(); } else l += c;
      w->j.files["ref"] = out; w->j.args.push_back("-trg_factors"); w->j.args.push_back("2"); g_env.Reach("forest_with_factors");
    }
    JobPrepare(w->j, g_env.scratch);
    Outcome o = JobRun(w->j, Plain(), g_env.scratch, 1, &w->want);
    w->pre = Universal(o, false);
    w->usable = Good(o); g_env.Reach(w->usable ? "usable" : "rejected");
    if (w->usable) { std::string a = w->j.what.substr(17); g_env.Reach("algorithm_" + a.substr(0, a.find(' ')) + (forest.empty() ? "" : "_forest")); }
    return w;
  }
  bool NextPlan(Workload& w, Rng& r, int k, Plan& p) {
    TuneW& d = (TuneW&)w; if (!d.usable && !d.pre.bad()) return false; if (k >= 8) return false;
    RandomSchedule(r, p); p.step_limit = 3000000; p.user = r.chance(0.15) ? 1 : r.range(2, 6); p.epoch_s = 1500000000 + (int64_t)r.below(100000000); return true;
  }
  Violation Check(Workload& w, const Plan& p, Outcome& o) {
    TuneW& d = (TuneW&)w; JobResult got;
    if (d.pre.bad()) { o = JobRun(d.j, Plain(), g_env.scratch, 1, &got); return Universal(o, false); }
    o = JobRun(d.j, p, g_env.scratch, (int)p.user, &got);
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (!Good(o)) return {"tuning-failed", "with " + std::to_string(p.user) + " threads tuning ended with " + dsim::Describe(o) + " although the single-threaded run succeeds: " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    std::string df = Diff(d.want, got);
    if (!df.empty()) return {"weights-differ", "with " + std::to_string(p.user) + " threads: " + df};
    return v;
  }
};
static Reg r1(new TuneProp);
