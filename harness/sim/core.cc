// Properties of the thread pool, the ordered writer and the symbol table.
#include "prop.h"
#include "core.h"
using namespace dsim;
void oFail(const char* what, const std::string& m) { Verdict(what, m); }
uint64_t oNow() { return Step(); }

// ==================================================================== pool
static struct PoolState { int submitted, accepted, started, active, ended; std::vector<int> st, en, de; int last_start; bool stopping, stopped; } ps;
static const PoolSpec* g_pool;
void oPool(int what, int i) {
  const PoolSpec& s = *g_pool;
  switch (what) {
    case 0: ps.submitted++; break;
    case 1: ps.accepted++;
      if (s.limit && ps.accepted - ps.started > s.limit + s.threads - ps.active) Verdict("queue-bound", "more accepted tasks are waiting than the queue limit allows");
      break;
    case 2:
      if (i >= s.ntasks) Verdict("refused-task-ran", "a task submitted after the stop was run");
      if (ps.st[i]++) Verdict("task-twice", "task " + std::to_string(i) + " was started twice");
      if (ps.stopped) Verdict("task-after-stop", "a task started after the pool reported that it has stopped");
      if (s.threads == 1 && s.submitters == 1 && i != ps.last_start + 1) Verdict("not-fifo", "a single worker started task " + std::to_string(i) + " after task " + std::to_string(ps.last_start));
      ps.last_start = i; ps.started++; ps.active++;
      if (ps.active > s.threads) Verdict("too-parallel", "more tasks run at once than the pool has threads");
      break;
    case 3: ps.en[i]++; ps.active--; ps.ended++; break;
    case 4: if (i < s.ntasks) { if (ps.de[i]++) Verdict("deleted-twice", "a task was deleted twice"); if (!ps.en[i]) Verdict("deleted-early", "a task was deleted before it finished"); if (!s.del) Verdict("deleted-unasked", "a task that the caller owns was deleted"); } break;
    case 5: ps.stopping = true; break;
    case 6: ps.stopped = true;
      if (ps.active) Verdict("stop-early", "the pool reported that it has stopped while a task is running");
      if (s.ending == 0 && ps.ended != s.ntasks) Verdict("lost-task", std::to_string(s.ntasks - ps.ended) + " of " + std::to_string(s.ntasks) + " submitted tasks did not run before the pool stopped");
      if (s.ending == 0 && s.del) for (int k = 0; k < s.ntasks; ++k) if (!ps.de[k]) Verdict("task-leak", "a finished task was not deleted");
      break;
    case 7: if (ps.ended != ps.accepted) Verdict("wait-early", "waiting for the pool returned while " + std::to_string(ps.accepted - ps.ended) + " submitted tasks are unfinished"); break;
    case 8: break;
    case 9: Verdict("accepted-after-stop", "a task was accepted after the pool stopped"); break;
  }
}
struct PoolW : Workload { PoolSpec s; std::string Describe() { return "pool threads=" + std::to_string(s.threads) + " limit=" + std::to_string(s.limit) + " submitters=" + std::to_string(s.submitters) + " tasks=" + std::to_string(s.ntasks) + " delete=" + std::to_string(s.del) + (s.ending ? " stop-now" : " stop-after-all") + (s.wait_first ? " wait" : ""); } };
struct PoolProp : Prop {
  const char* Name() { return "worker-pool-exactly-once"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<PoolW>(new PoolW); PoolSpec& s = w->s;
    s.threads = r.range(1, g_env.tier ? 9 : 6); s.limit = r.chance(0.3) ? 0 : r.chance(0.4) ? 1 : r.range(1, s.threads * 5); s.ntasks = r.chance(0.1) ? 0 : r.range(1, g_env.tier ? 60 : 25);
    s.del = r.chance(0.7); s.ending = r.chance(0.2) ? 1 : 0; s.wait_first = r.chance(0.25) && s.ntasks > 0; s.submit_after = r.chance(0.3); s.submitters = r.chance(0.3) ? r.range(2, 4) : 1; if (r.chance(0.03)) s.ntasks = r.range(60, 400); for (int i = 0; i < s.ntasks; ++i) s.by.push_back(r.below(s.submitters));
    int style = r.range(0, 5); for (int i = 0; i < s.ntasks; ++i) s.work.push_back(style == 5 ? r.range(0, 4) : style);
    if (s.limit == 0) g_env.Reach("unbounded_queue"); else g_env.Reach("bounded_queue");
    if (s.wait_first) g_env.Reach("wait"); if (s.ending) g_env.Reach("stop_without_draining"); if (!s.del) g_env.Reach("caller_owned_tasks"); if (!s.ntasks) g_env.Reach("empty"); if (s.submitters > 1) g_env.Reach("several_submitters");
    return w;
  }
  bool NextPlan(Workload&, Rng& r, int k, Plan& p) { if (k >= 12) return false; RandomSchedule(r, p); p.step_limit = 200000; p.stderr_path = "/dev/null"; return true; }
  Violation Check(Workload& w, const Plan& p, Outcome& o) {
    PoolSpec& s = ((PoolW&)w).s; g_pool = &s; ps = PoolState(); ps.st.assign(s.ntasks + 1, 0); ps.en = ps.de = ps.st; ps.last_start = -1;
    o = Run(p, [&] { return PoolBody(s); });
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (!o.ok_exit()) return {"pool-crash", "the pool run ended with " + Describe(o)};
    return v;
  }
};
static Reg r1(new PoolProp);

// ==================================================================== ordered writer
static const CollSpec* g_coll; static std::string g_want[2], g_got[2]; static std::vector<int> g_wdone; static int g_flush[2];
void oCollOut(int st, const char* p, size_t n) {
  g_got[st].append(p, n);
  if (g_want[st].compare(0, g_got[st].size(), g_got[st])) Verdict("out-of-order", std::string(st ? "error" : "output") + " stream is not a prefix of the records in order: " + FirstDiff(g_want[st].substr(0, g_got[st].size()), g_got[st]));
}
void oColl(int what, int id) {
  if (what == 2) { g_flush[id] = (int)g_got[id].size(); return; }
  if (what == 0) return;
  g_wdone[id] = 1;
  // every record whose predecessors have all been handed over must be out by now
  size_t need[2] = {0, 0}; 
  for (int i = 0; i < g_coll->n && g_wdone[i]; ++i) if (!g_coll->skip[i]) { need[0] += g_coll->out[i].size(); need[1] += g_coll->err[i].size(); }
  for (int st = 0; st < 2; ++st) {
    if (g_got[st].size() < need[st]) Verdict("record-held-back", "a record is still held back although all earlier records have been handed over");
    if (!g_coll->buffer && g_flush[st] < (int)need[st]) Verdict("not-flushed", "an unbuffered writer left completed records unflushed");
  }
}
struct CollW : Workload { CollSpec s; std::string Describe() { return "ordered writer threads=" + std::to_string(s.threads) + " records=" + std::to_string(s.n) + (s.buffer ? " buffered" : " unbuffered"); } };
struct CollProp : Prop {
  const char* Name() { return "ordered-writer"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<CollW>(new CollW); CollSpec& s = w->s;
    s.threads = r.range(1, g_env.tier ? 8 : 5); s.n = r.chance(0.05) ? 0 : r.chance(0.06) ? r.range(40, 500) : r.range(1, g_env.tier ? 60 : 24); s.buffer = r.chance(0.5);
    s.ids.resize(s.threads); std::vector<int> perm; for (int i = 0; i < s.n; ++i) perm.push_back(i);
    int mode = r.range(0, 2); if (mode == 0) for (int i = s.n - 1; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]); else if (mode == 1) std::reverse(perm.begin(), perm.end());
    for (int i : perm) s.ids[r.below(s.threads)].push_back(i);
    for (int i = 0; i < s.n; ++i) {
      s.skip.push_back(r.chance(0.15));
      std::string b = "<" + std::to_string(i) + ":" + std::string(r.below(30), 'a' + i % 26) + ">\n";
      s.out.push_back(r.chance(0.1) ? "" : b); s.err.push_back(r.chance(0.3) ? "" : "e" + b);
    }
    g_env.Reach(s.buffer ? "buffered" : "unbuffered"); for (int x : s.skip) if (x) g_env.Reach("skipped_records");
    return w;
  }
  bool NextPlan(Workload&, Rng& r, int k, Plan& p) { if (k >= 12) return false; RandomSchedule(r, p); p.step_limit = 300000; return true; }
  Violation Check(Workload& w, const Plan& p, Outcome& o) {
    CollSpec& s = ((CollW&)w).s; g_coll = &s;
    for (int st = 0; st < 2; ++st) { g_want[st].clear(); g_got[st].clear(); g_flush[st] = 0; }
    for (int i = 0; i < s.n; ++i) if (!s.skip[i]) { g_want[0] += s.out[i]; g_want[1] += s.err[i]; }
    g_wdone.assign(s.n, 0);
    o = Run(p, [&] { int rc = CollBody(s); for (int st = 0; st < 2; ++st) if (g_got[st] != g_want[st]) Verdict("incomplete", "after all records were handed over: " + FirstDiff(g_want[st], g_got[st])); 
      for (int st = 0; st < 2; ++st) if (g_flush[st] != (int)g_got[st].size()) Verdict("not-flushed", "explicit flush left data unflushed"); return rc; });
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (!o.ok_exit()) return {"writer-crash", Describe(o)};
    return v;
  }
};
static Reg r2(new CollProp);

// ==================================================================== symbol table
static const SymSpec* g_sym; struct SymRec { int t, kind, sym; long id; uint64_t t0, t1; }; static std::vector<SymRec> g_hist;
void oSym(int t, int kind, int sym, long id, uint64_t t0) { g_hist.push_back({t, kind, sym, id, t0, Step()}); }
void oSymFinal(const std::vector<std::string>& table) {
  const SymSpec& s = *g_sym;
  std::map<std::string, long> id; std::map<long, std::string> rev; std::map<std::string, std::pair<uint64_t, uint64_t>> add;   // earliest invocation, earliest response
  for (auto& h : g_hist) if (h.kind == 0) {
    const std::string& x = s.pool[h.sym];
    if (h.id < 0) Verdict("no-identifier", "interning \"" + x + "\" returned no identifier");
    if (id.count(x) && id[x] != h.id) Verdict("two-identifiers", "\"" + x + "\" received identifiers " + std::to_string(id[x]) + " and " + std::to_string(h.id));
    if (rev.count(h.id) && rev[h.id] != x) Verdict("shared-identifier", "identifier " + std::to_string(h.id) + " stands for \"" + rev[h.id] + "\" and \"" + x + "\"");
    id[x] = h.id; rev[h.id] = x;
    auto it = add.find(x); if (it == add.end()) add[x] = {h.t0, h.t1}; else { it->second.first = std::min(it->second.first, h.t0); it->second.second = std::min(it->second.second, h.t1); }
  }
  for (auto& h : g_hist) if (h.kind == 1) {
    const std::string& x = s.pool[h.sym]; auto it = add.find(x);
    if (h.id >= 0) { if (it == add.end() || it->second.first > h.t1) Verdict("phantom", "a lookup found \"" + x + "\" before anybody interned it"); if (id[x] != h.id) Verdict("two-identifiers", "a lookup of \"" + x + "\" returned another identifier than interning"); }
    else if (it != add.end() && it->second.second < h.t0) Verdict("stale-lookup", "a lookup of \"" + x + "\" failed after interning it had completed");
  }
  // identifiers are handed out in the order of completed additions
  for (auto& a : add) for (auto& b : add) if (a.second.second < b.second.first && id[a.first] > id[b.first]) Verdict("identifier-order", "\"" + a.first + "\" was interned before \"" + b.first + "\" but has the larger identifier");
  if (!s.dict) {
    if (table.size() != id.size()) Verdict("table-size", "the table holds " + std::to_string(table.size()) + " symbols, " + std::to_string(id.size()) + " were interned");
    for (size_t i = 0; i < table.size(); ++i) if (!rev.count((long)i) || rev[(long)i] != table[i]) Verdict("wrong-symbol", "identifier " + std::to_string(i) + " maps to \"" + table[i] + "\"");
  }
}
struct SymW : Workload { SymSpec s; std::string Describe() { return std::string(s.dict ? "global dictionary" : "symbol set") + " threads=" + std::to_string(s.threads) + " strings=" + std::to_string(s.pool.size()); } };
struct SymProp : Prop {
  const char* Name() { return "symbol-table-linearizable"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<SymW>(new SymW); SymSpec& s = w->s;
    s.threads = r.range(2, g_env.tier ? 6 : 4); s.dict = r.chance(0.4); int n = r.chance(0.3) ? r.range(1, 3) : r.chance(0.05) ? r.range(200, 1500) : r.range(3, g_env.tier ? 60 : 30);
    for (int i = 0; i < n; ++i) s.pool.push_back("w" + std::to_string(i) + (r.chance(0.3) ? std::string(40, 'x') : ""));
    if (r.chance(0.3)) s.pool[0] = "";
    s.preload = n > 100 ? r.range(n / 2, n) : r.chance(0.5) ? 0 : r.range(0, n);
    s.ops.resize(s.threads);
    for (auto& v : s.ops) { int m = r.range(1, g_env.tier ? 40 : 15); for (int i = 0; i < m; ++i) v.push_back({r.range(0, 2), (int)r.below(n)}); }
    g_env.Reach(s.dict ? "global_dictionary" : "private_table");
    return w;
  }
  bool NextPlan(Workload&, Rng& r, int k, Plan& p) { if (k >= 12) return false; RandomSchedule(r, p); p.step_limit = 100000; return true; }
  Violation Check(Workload& w, const Plan& p, Outcome& o) {
    SymSpec& s = ((SymW&)w).s; g_sym = &s; g_hist.clear();
    o = Run(p, [&] { return SymBody(s); });
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (!o.ok_exit()) return {"table-crash", Describe(o)};
    return v;
  }
};
static Reg r3(new SymProp);
