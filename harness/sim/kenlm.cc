// Properties of kenlm's bounded queues, streaming chains and external sort.
#include "prop.h"
#include "kenlm.h"
#include <algorithm>
#include <signal.h>
using namespace dsim;
void kFailed(const char* what) { Verdict("oracle", what); }
// hard I/O faults are allowed to end the run, but not to end it successfully with a wrong result
static bool Stopped(const Outcome& o) { return (o.kind == OUT_EXIT && o.code != 0) || o.kind == OUT_ABORT || (o.kind == OUT_SIGNAL && o.code == SIGABRT); }
static void IoPlan(Rng& r, Plan& p, bool hard) {
  RandomBenignIo(r, p); p.scratch = g_env.scratch; p.stderr_path = g_env.scratch + "/stderr";
  if (hard) { static const int kc[][2] = {{OP_READ, F_READ_EIO}, {OP_WRITE, F_WRITE_EIO}, {OP_WRITE, F_WRITE_ENOSPC}, {OP_OPEN, F_OPEN_FAIL}, {OP_SEEK, F_SEEK_EIO}, {OP_TRUNC, F_TRUNC_EIO}}; auto k = kc[r.below(6)]; p.hard_class = k[0]; p.hard_kind = k[1]; p.hard_index = r.below(r.chance(0.5) ? 4 : 40); p.hard_sticky = r.chance(0.4); }
}

// ==================================================================== bounded queue and request pool
struct QW : Workload { bool pool; QueueSpec q; KPoolSpec k; int n = 0;
  std::string Describe() { return pool ? "request pool workers=" + std::to_string(k.workers) + " queue=" + std::to_string(k.queue) + " requests=" + std::to_string(k.n) : "bounded queue size=" + std::to_string(q.size) + " producers=" + std::to_string(q.produce.size()) + " consumers=" + std::to_string(q.consume.size()) + " items=" + std::to_string(n); } };
struct QItem { uint64_t pb = 0, pe = 0, cb = 0, ce = 0; };
static struct { std::vector<QItem> it; std::map<int, uint64_t> open; int produced, consuming, taken; std::vector<int> st, en; std::set<int> busy; int started, accepted; } qs;
static const QW* g_q;
void kQueue(int what, int t, int id) {
  switch (what) {
    case 0: qs.it[id].pb = Step() + 1; break;
    case 1: qs.it[id].pe = Step() + 1; qs.produced++; if (qs.produced - qs.taken - qs.consuming > g_q->q.size) Verdict("over-capacity", "more values are in the queue than its size allows"); break;
    case 2: qs.open[t] = Step() + 1; qs.consuming++; break;
    case 3: { qs.consuming--; qs.taken++;
      if (id < 0 || id >= g_q->n || !qs.it[id].pb) Verdict("phantom-value", "a value was consumed that nobody produced");
      if (qs.it[id].ce) Verdict("value-twice", "value " + std::to_string(id) + " was consumed twice");
      qs.it[id].cb = qs.open[t]; qs.it[id].ce = Step() + 1;
      for (auto& x : qs.it) if (x.pe && x.pe < qs.it[id].pb && (!x.ce) && false) {}
      break; }
    case 4: qs.it[id].pb = 0; break;
    case 5: qs.consuming--; break;
  }
}
void kPool(int what, int h, int id) {
  const KPoolSpec& s = g_q->k;
  switch (what) {
    case 1: qs.accepted++; if (qs.accepted - qs.started > s.queue + s.workers) Verdict("over-capacity", "more requests wait than the queue holds"); break;
    case 2: if (id < 0 || id >= s.n) Verdict("phantom-value", "a request was handled that nobody made"); if (qs.st[id]++) Verdict("request-twice", "request " + std::to_string(id) + " was handled twice");
      if (!qs.busy.insert(h).second) Verdict("handler-shared", "one handler works on two requests at once"); qs.started++;
      if (s.workers == 1 && id && !qs.st[id - 1]) Verdict("out-of-order", "a single worker handled a later request first"); break;
    case 3: qs.en[id]++; qs.busy.erase(h); break;
    case 4: for (int i = 0; i < s.n; ++i) if (!qs.en[i]) Verdict("request-lost", "the pool is gone but request " + std::to_string(i) + " was not handled"); break;
  }
}
struct QueueProp : Prop {
  const char* Name() { return "bounded-queue"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<QW>(new QW); w->pool = r.chance(0.35); int big = g_env.tier ? 2 : 1;
    if (w->pool) { w->k.workers = r.range(1, 4 * big); w->k.queue = r.range(1, 8); w->k.n = r.chance(0.1) ? 0 : r.range(1, 20 * big); w->k.work = r.below(4); g_env.Reach("request_pool"); return std::move(w); }
    QueueSpec& s = w->q; s.size = r.chance(0.4) ? 1 : r.range(1, 6); int np = r.range(1, 3 * big), nc = r.range(1, 3 * big); s.produce.resize(np); s.work = r.below(4);
    for (int t = 0; t < np; ++t) { int m = r.range(0, 10 * big); for (int i = 0; i < m; ++i) s.produce[t].push_back(w->n++); }
    s.consume.assign(nc, 0); for (int i = 0; i < w->n; ++i) s.consume[r.below(nc)]++;
    bool th = r.chance(0.35); for (int i = 0; i < w->n; ++i) s.throw_in.push_back(th && r.chance(0.2) ? r.range(1, 3) : 0); for (int i = 0; i < 8; ++i) s.throw_out.push_back(th && r.chance(0.2));
    g_env.Reach(th ? "failing_copies" : "plain"); if (np > 1) g_env.Reach("many_producers"); if (nc > 1) g_env.Reach("many_consumers"); return std::move(w);
  }
  bool NextPlan(Workload&, Rng& r, int k, Plan& p) { if (k >= 12) return false; RandomSchedule(r, p); p.step_limit = 300000; p.p_eintr = r.chance(0.4) ? (r.chance(0.5) ? 0.05 : 0.4) : 0; p.stderr_path = "/dev/null"; return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    QW& w = (QW&)ww; g_q = &w; qs = {}; qs.it.resize(w.n); if (w.pool) { qs.st.assign(w.k.n + 1, 0); qs.en = qs.st; }
    o = Run(p, [&] { int rc = w.pool ? KPoolBody(w.k) : QueueBody(w.q);
      if (!w.pool) { for (int i = 0; i < w.n; ++i) if (!qs.it[i].ce) Verdict("value-lost", "value " + std::to_string(i) + " was produced but never consumed");
        for (auto& a : qs.it) for (auto& b : qs.it) if (a.pe < b.pb && b.ce < a.cb) Verdict("not-fifo", "a value was consumed before one that had been produced earlier"); }
      return rc; });
    Violation v = Universal(o, false); if (v.bad()) return v; if (!o.ok_exit()) return {"queue-crash", dsim::Describe(o)}; return v;
  }
};
static Reg r1(new QueueProp);

// ==================================================================== chains
struct CW : Workload { int mode; ChainSpec c; ChainsSpec m; std::vector<std::vector<std::vector<std::pair<uint64_t, uint32_t>>>> want;
  std::string Describe() { if (mode == 2) return "parallel chains orders=" + std::to_string(m.orders) + " workers=" + std::to_string(m.workers) + " blocks=" + std::to_string(m.blocks);
    return "chain entry=" + std::to_string(c.entry) + " blocks=" + std::to_string(c.blocks) + " memory=" + std::to_string(c.memory) + " records=" + std::to_string(c.n) + " source=" + std::to_string(c.source) + " workers=" + std::to_string(c.middle.size()) + " sink=" + std::to_string(c.sink) + " rounds=" + std::to_string(c.rounds); } };
static CW* g_c; static std::vector<std::vector<size_t>> g_pos; static std::vector<std::vector<int>> g_ended; static std::vector<std::vector<int>> g_mpos, g_mend;
void kChain(int round, int stage, uint64_t id, uint32_t sig) {
  auto& w = g_c->want[round][stage]; size_t& p = g_pos[round][stage];
  if (p >= w.size()) Verdict("extra-record", "worker " + std::to_string(stage) + " received a record after the last one");
  if (w[p].first != id) Verdict("record-order", "worker " + std::to_string(stage) + " received another record than number " + std::to_string(p));
  if (w[p].second != sig) Verdict("record-content", "record " + std::to_string(p) + " reached worker " + std::to_string(stage) + " without the changes of the workers before it");
  ++p;
}
void kChainEnd(int round, int stage) { g_ended[round][stage] = 1; if (g_pos[round][stage] != g_c->want[round][stage].size()) Verdict("record-lost", "worker " + std::to_string(stage) + " was told that the data ends after " + std::to_string(g_pos[round][stage]) + " of " + std::to_string(g_c->want[round][stage].size()) + " records"); }
void kMulti(int o, int stage, uint64_t id, uint32_t sig) {
  if (stage < 0) { stage = -1 - stage; g_mend[stage][o] = 1; if (g_mpos[stage][o] != g_c->m.counts[o]) Verdict("record-lost", "a worker saw only a part of chain " + std::to_string(o)); return; }
  int& i = g_mpos[stage][o]; if (i >= g_c->m.counts[o]) Verdict("extra-record", "a worker received a record after the last one");
  uint64_t want = (uint64_t)i * 2654435761u + (uint64_t)o * 1000003; if (id != want) Verdict("record-order", "chain " + std::to_string(o) + " delivered records in another order");
  uint32_t s = 0; for (int k = 0; k < stage; ++k) s = s * 31 + k * 7 + (uint32_t)id + 1; if (s != sig) Verdict("record-content", "a record lost the changes of an earlier worker"); ++i;
}
static uint64_t Id(uint64_t salt, int i) { return (uint64_t)i * 2654435761u + salt; }
static bool Drop(int kind, uint64_t id) { return kind == 2 ? (id * 0x9E3779B97F4A7C15ULL >> 60) < 5 : kind == 3; }
struct ChainProp : Prop {
  const char* Name() { return "stream-pipeline"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<CW>(new CW); w->mode = r.chance(0.2) ? 2 : 0; int big = g_env.tier ? 3 : 1;
    if (w->mode == 2) { w->m.orders = r.range(1, 4); w->m.blocks = r.range(1, 4); w->m.workers = r.range(0, 4) > 0; w->m.n = 0; for (int o = 0; o < w->m.orders; ++o) { w->m.counts.push_back(r.range(0, 20 * big)); w->m.memory.push_back(16 * w->m.blocks * r.range(1, 5)); } g_env.Reach("parallel_chains"); return std::move(w); }
    ChainSpec& s = w->c; s.entry = r.range(12, 40); s.blocks = r.range(1, 5); s.memory = (size_t)s.entry * s.blocks * r.range(1, 7) + r.below(s.entry); s.n = r.chance(0.1) ? 0 : r.range(1, 30 * big); s.rounds = r.range(1, 2); s.source = r.below(4); s.sink = r.below(5); s.release = r.chance(0.5); s.dir = g_env.scratch; s.salt = r.below(1000);
    for (int i = r.below(4); i > 0; --i) s.middle.push_back(r.chance(0.05) ? 3 : r.below(3)); if (r.chance(0.7)) for (int i = r.range(1, 5); i > 0; --i) s.sizes.push_back(r.below(8));
    // reading in the calling thread starts before blocks are recycled, so there blocks must not be empty
    for (int m : s.middle) if (m >= 2 && !s.sink) s.sink = 5; for (int z : s.sizes) if (s.source == 1 && !s.sink) s.sink = 5; if (!s.sink && r.chance(0.4)) s.sink = 5;
    w->want.resize(s.rounds);
    for (int q = 0; q < s.rounds; ++q) {
      std::vector<std::pair<uint64_t, uint32_t>> cur; std::string file; for (int i = 0; i < s.n; ++i) { uint64_t id = Id(s.salt + q, i); cur.push_back({id, 0}); file.append((char*)&id, 8); file.append(4, 0); for (int k = 12; k < s.entry; ++k) file += (char)(unsigned char)(id + k); }
      if (s.source >= 2) WriteFile(g_env.scratch + "/in" + std::to_string(q), file);
      for (size_t m = 0; m <= s.middle.size(); ++m) { w->want[q].push_back(cur); if (m == s.middle.size()) break; std::vector<std::pair<uint64_t, uint32_t>> nx; for (auto& x : cur) if (!Drop(s.middle[m], x.first)) nx.push_back({x.first, x.second * 31 + (uint32_t)m * 7 + (uint32_t)x.first + 1}); cur = nx; }
    }
    static const char* sn[] = {"source_stream", "source_link", "source_read", "source_pread"}; static const char* kn[] = {"sink_stream", "sink_write_recycle", "sink_write", "sink_pwrite", "sink_file_buffer", "sink_worker"}; g_env.Reach(sn[s.source]); g_env.Reach(kn[s.sink]); if (s.rounds > 1) g_env.Reach("chain_reused");
    return std::move(w);
  }
  bool NextPlan(Workload& w, Rng& r, int k, Plan& p) { if (k >= 10) return false; RandomSchedule(r, p); p.step_limit = 400000; IoPlan(r, p, ((CW&)w).mode != 2 && r.chance(0.2)); return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    CW& w = (CW&)ww; g_c = &w; g_pos.assign(w.want.size(), {}); g_ended.assign(w.want.size(), {}); for (size_t i = 0; i < w.want.size(); ++i) { g_pos[i].assign(w.want[i].size(), 0); g_ended[i].assign(w.want[i].size(), 0); }
    if (w.mode == 2) { g_mpos.assign(w.m.workers, std::vector<int>(w.m.orders, 0)); g_mend = g_mpos; }
    o = Run(p, [&] { int rc = w.mode == 2 ? ChainsBody(w.m) : ChainBody(w.c);
      if (rc == 0) { for (auto& x : g_ended) for (int e : x) if (!e) Verdict("worker-unfinished", "waiting for the chain returned although a worker is not done"); for (auto& x : g_mend) for (int e : x) if (w.mode == 2 && !e) Verdict("worker-unfinished", "waiting for the chains returned although a worker is not done");
 } return rc; });
    Violation v = Universal(o, true); if (v.bad()) return v;
    if (!o.ok_exit() && !(p.hard_class >= 0 && o.faults[p.hard_kind] && Stopped(o))) return {"chain-crash", dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)};
    g_env.Reach(o.ok_exit() ? "completed" : "stopped"); return v;
  }
};
static Reg r2(new ChainProp);

// ==================================================================== sort
struct SW : Workload { SortSpec s; std::string Describe() { return "external sort records=" + std::to_string(s.keys.size()) + " entry=" + std::to_string(s.entry) + (s.combine ? " combining" : "") + " chain=" + std::to_string(s.blocks) + "x" + std::to_string(s.memory / s.blocks) + " buffer=" + std::to_string(s.buffer) + " memory=" + std::to_string(s.total) + " lazy=" + std::to_string(s.lazy) + " mode=" + std::to_string(s.mode); } };
static std::vector<std::pair<uint64_t, uint64_t>> g_out;
void kSorted(uint64_t k, uint64_t v) { if (g_out.size() && k < g_out.back().first) Verdict("not-sorted", "record " + std::to_string(g_out.size()) + " of the sorted output is smaller than the one before it"); g_out.push_back({k, v}); }
struct SortProp : Prop {
  const char* Name() { return "external-sort"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<SW>(new SW); SortSpec& s = w->s; s.dir = g_env.scratch; s.combine = r.chance(0.5); s.entry = 16 + 8 * r.below(3); s.blocks = r.range(1, 3);
    int per = r.range(1, 8); s.memory = (size_t)s.entry * s.blocks * per; s.buffer = s.entry * r.range(1, 4) + r.below(s.entry); size_t b = s.buffer - s.buffer % s.entry; s.total = s.buffer * 4 + r.below(s.buffer * 4); s.lazy = r.chance(0.2) ? 0 : b * r.range(1, 12) + r.below(b);
    s.mode = r.below(4); s.out_blocks = r.range(1, 3); s.out_memory = (size_t)s.entry * s.out_blocks * r.range(1, 6);
    int n = r.chance(0.1) ? r.below(3) : r.range(1, g_env.tier ? 200 : 80); uint64_t range = r.chance(0.4) ? 1 + r.below(12) : r.chance(0.5) ? 100 : ~0ULL; int style = r.below(5);
    for (int i = 0; i < n; ++i) s.keys.push_back(style == 3 ? (uint64_t)i : style == 4 ? (uint64_t)(n - i) : r.next() % range);
    // a combiner is only promised to see equal records of different blocks
    s.no_dup_in_block = true; for (int i = 0; i < n; i += per) { std::set<uint64_t> u; for (int k = i; k < n && k < i + per; ++k) if (!u.insert(s.keys[k]).second) s.no_dup_in_block = false; }
    g_env.Reach(s.combine ? "combining" : "plain"); static const char* mn[] = {"output_default", "output_lazy", "steal_completed", "blocking_sort"}; g_env.Reach(mn[s.mode]); if (n > per * (int)(s.lazy / std::max<size_t>(1, b))) g_env.Reach("several_passes");
    return std::move(w);
  }
  bool NextPlan(Workload&, Rng& r, int k, Plan& p) { if (k >= 8) return false; RandomSchedule(r, p); p.step_limit = 600000; IoPlan(r, p, r.chance(0.25)); return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    SW& w = (SW&)ww; SortSpec& s = w.s; g_out.clear();
    o = Run(p, [&] { int rc = SortBody(s); if (rc) return rc;
      std::map<uint64_t, std::vector<uint64_t>> want, got; for (size_t i = 0; i < s.keys.size(); ++i) want[s.keys[i]].push_back(1 + i); for (auto& x : g_out) got[x.first].push_back(x.second);
      if (!s.combine) { for (auto& x : got) std::sort(x.second.begin(), x.second.end()); if (got != want) Verdict("not-permutation", "the sorted output of " + std::to_string(g_out.size()) + " records is not a permutation of the " + std::to_string(s.keys.size()) + " input records"); }
      else { for (auto& x : want) { uint64_t a = 0, b = 0; for (auto v : x.second) a += v; if (!got.count(x.first)) Verdict("record-lost", "a key is missing from the sorted output"); for (auto v : got[x.first]) b += v; if (a != b) Verdict("combine-wrong", "the combined value of a key is " + std::to_string(b) + " instead of " + std::to_string(a)); if (s.no_dup_in_block && got[x.first].size() != 1) Verdict("not-combined", "equal records of different blocks were not combined"); }
        if (got.size() != want.size()) Verdict("extra-record", "the sorted output has keys the input does not have"); }
      return rc; });
    Violation v = Universal(o, true); if (v.bad()) return v;
    if (!o.ok_exit() && !(p.hard_class >= 0 && o.faults[p.hard_kind] && Stopped(o))) return {"sort-crash", dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)};
    g_env.Reach(o.ok_exit() ? "completed" : "stopped"); return v;
  }
};
static Reg r3(new SortProp);
