// A property: workloads generated from a seed, simulated under plans, judged by an oracle.
#pragma once
#include "dsim.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Workload {
  virtual ~Workload() {}
  virtual std::string Describe() { return ""; }
};
struct Violation {
  std::string kind;      // stable class of the failure; "" = property held
  std::string message;   // human readable
  bool bad() const { return !kind.empty(); }
};
struct Env {             // per worker process
  std::string scratch;   // private directory
  int tier = 0;          // 0 quick, 1 thorough
  std::map<std::string, uint64_t> reach;
  void Reach(const std::string& k, uint64_t n = 1) { reach[k] += n; }
};
extern Env g_env;

struct Prop {
  virtual ~Prop() {}
  virtual const char* Name() = 0;
  // workload number n of this seed
  virtual std::unique_ptr<Workload> Make(uint64_t seed) = 0;
  // k-th plan for the workload; false = enough.  Plans are drawn from r only.
  virtual bool NextPlan(Workload& w, dsim::Rng& r, int k, dsim::Plan& p) = 0;
  // one simulated run plus its verdict.  Must be a function of (workload, plan).
  virtual Violation Check(Workload& w, const dsim::Plan& p, dsim::Outcome& o) = 0;
};
void Register(Prop* p);
Prop* FindProp(const std::string& name);
struct Reg { Reg(Prop* p) { Register(p); } };

// ---- helpers
// swarm: draws a scheduling strategy with its knobs
void RandomSchedule(dsim::Rng& r, dsim::Plan& p, bool timers = true);
void RandomBenignIo(dsim::Rng& r, dsim::Plan& p);
// classes of outcome that are violations whatever the property (race, deadlock, use-after-free, misuse, no-progress, memory fault)
Violation Universal(const dsim::Outcome& o, bool faults_injected);
std::string ReadFile(const std::string& p);
void WriteFile(const std::string& p, const std::string& s);
void RemoveFile(const std::string& p);
bool Exists(const std::string& p);
std::string Clip(const std::string& s, size_t n = 300);
std::string FirstDiff(const std::string& want, const std::string& got);
uint64_t HashStr(const std::string& s);
int CallMain(int (*m)(int, char**), const std::vector<std::string>& args);
