// Worker process: searches seeds for one property, confirms, minimises and writes replay files.
#include "prop.h"
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_set>

using namespace dsim;
Env g_env;
static std::vector<Prop*>& Props() { static std::vector<Prop*> v; return v; }
void Register(Prop* p) { Props().push_back(p); }
Prop* FindProp(const std::string& n) { for (auto p : Props()) if (n == p->Name()) return p; return nullptr; }

static double Now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// ------------------------------------------------------------ helpers
void RandomSchedule(Rng& r, Plan& p, bool timers) {
  p.seed = r.next();
  switch (r.below(8)) {
    case 0: case 1: case 2: p.strategy = 1; { static const double ps[] = {0.02, 0.1, 0.3, 0.6, 0.9}; p.p_switch = ps[r.below(5)]; } break;
    case 3: case 4: p.strategy = 2; p.pct_depth = 1 + (int)r.below(8); { static const uint64_t ls[] = {50, 300, 2000, 10000}; p.pct_len = ls[r.below(4)]; } break;
    case 5: p.strategy = 3; break;
    case 6: p.strategy = 4; p.p_switch = 0.2; break;
    case 7: p.strategy = 0; break;
  }
  static const uint64_t gaps[] = {0, 30, 200, 1500, 10000, 60000};
  p.access_gap = gaps[r.below(6)];
  if (r.chance(0.4)) p.p_spurious = r.chance(0.5) ? 0.02 : 0.2;
  if (r.chance(0.25)) p.p_stall = 0.01;
  if (timers && r.chance(0.3)) p.p_timer_early = 0.02;
  if (r.chance(0.3)) p.p_clock_jump = 0.01;
  p.heap_seed = r.chance(0.6) ? r.next() | 1 : 0;
  p.epoch_s = 1000000000 + (int64_t)r.below(1200000000);
}
void RandomBenignIo(Rng& r, Plan& p) {
  static const double ps[] = {0, 0.02, 0.2, 0.9};
  p.p_short_read = ps[r.below(4)]; p.p_short_write = ps[r.below(4)];
  p.p_eintr = r.chance(0.5) ? (r.chance(0.5) ? 0.02 : 0.2) : 0;
}
Violation Universal(const Outcome& o, bool faulty) {
  Violation v;
  if (o.kind == OUT_VERDICT) { v.kind = o.verdict; v.message = o.message; }
  else if (o.kind == OUT_SIGNAL && o.code != SIGABRT) { v.kind = "memory-fault"; v.message = Describe(o); }
  else if (o.kind == OUT_TIMEOUT) { v.kind = "infrastructure"; v.message = Describe(o); }
  return v;
}
std::string ReadFile(const std::string& p) {
  std::string s; int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0); if (fd < 0) return s;
  char b[65536]; long n; while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
  syscall(SYS_close, fd); return s;
}
void WriteFile(const std::string& p, const std::string& s) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(3); }
  for (size_t o = 0; o < s.size();) { long w = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (w <= 0) { fprintf(stderr, "short write %s\n", p.c_str()); _exit(3); } o += w; }
  syscall(SYS_close, fd);
}
void RemoveFile(const std::string& p) { unlink(p.c_str()); }
bool Exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
std::string Clip(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
std::string FirstDiff(const std::string& a, const std::string& b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  size_t ls = a.rfind('\n', i ? i - 1 : 0); if (ls == std::string::npos || i == 0) ls = 0; else ls++;
  int line = 1 + (int)std::count(a.begin(), a.begin() + std::min(i, a.size()), '\n');
  char h[100]; snprintf(h, sizeof h, "first difference at byte %zu (line %d; lengths %zu vs %zu): ", i, line, a.size(), b.size());
  return std::string(h) + "expected \"" + Clip(a.substr(std::min(ls, a.size())), 160) + "\" got \"" + Clip(b.substr(std::min(ls, b.size())), 160) + "\"";
}
uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }
int CallMain(int (*m)(int, char**), const std::vector<std::string>& args) {
  static char text[1 << 16]; static char* v[512]; size_t used = 0, n = 0;   // no allocations: they might be made to fail
  for (auto& a : args) { if (used + a.size() + 1 > sizeof text || n + 1 >= 512) abort(); v[n++] = text + used; memcpy(text + used, a.c_str(), a.size() + 1); used += a.size() + 1; }
  v[n] = nullptr;
  return m((int)n, v);
}

// ------------------------------------------------------------ plan (de)serialisation
#define PLAN_FIELDS(X) X(seed) X(strategy) X(p_switch) X(pct_depth) X(pct_len) X(access_gap) X(p_spurious) X(p_clock_jump) X(p_timer_early) X(p_stall) \
  X(step_limit) X(access_limit) X(races) X(heap_seed) X(epoch_s) X(p_short_read) X(p_short_write) X(p_eintr) X(hard_class) X(hard_index) X(hard_kind) X(hard_sticky) \
  X(disk_limit) X(std_faults) X(scripted) X(record_storage) X(crash_on) X(crash_io) X(crash_access) X(crash_writeback) X(user)
template <class T> static void Put(std::ostream& o, const char* n, const T& v) { std::ostringstream s; s.precision(17); s << v; o << "plan." << n << "=" << s.str() << "\n"; }
static void SavePlan(std::ostream& o, const Plan& p) {
#define X(f) Put(o, #f, p.f);
  PLAN_FIELDS(X)
#undef X
  for (auto& r : p.script) o << "rec=" << r.type << " " << r.key << " " << r.val << "\n";
}
template <class T> static void Get(const std::string& s, T& v) { std::istringstream i(s); i >> v; }
static void LoadPlanLine(const std::string& k, const std::string& v, Plan& p) {
#define X(f) if (k == "plan." #f) { Get(v, p.f); return; }
  PLAN_FIELDS(X)
#undef X
  if (k == "rec") { Rec r; std::istringstream i(v); i >> r.type >> r.key >> r.val; p.script.push_back(r); }
}

static std::string Json(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static bool Located(const std::string& k) { return k == "race" || k == "use-after-free" || k == "memory-fault" || k == "misuse"; }
static std::string Symbolise(const std::vector<uintptr_t>& pcs, std::string* sig, bool fault = false) {
  if (pcs.empty()) return "";
  std::string cmd = "addr2line -a -i -C -f -e /proc/" + std::to_string(getpid()) + "/exe";
  for (auto p : pcs) { char b[32]; snprintf(b, sizeof b, " 0x%lx", (unsigned long)(p ? p - 1 : 0)); cmd += b; }
  cmd += " 2>/dev/null";
  std::string out; FILE* f = popen(cmd.c_str(), "r"); if (!f) return "";
  // per address: the innermost (inlined) frame that is not in a system header
  char b[8192]; std::vector<std::string> fn; std::string name; bool fixed = false, want_name = true;
  while (fgets(b, sizeof b, f)) {
    std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back();
    if (s.compare(0, 2, "0x") == 0 && s.find(' ') == std::string::npos) { fn.push_back("?"); fixed = false; want_name = true; continue; }
    if (want_name) { name = s; want_name = false; continue; }
    want_name = true; if (fixed || fn.empty()) continue;
    bool sys = s.compare(0, 5, "/usr/") == 0 || s[0] == '?';
    size_t q = s.rfind("/repo/"); if (q != std::string::npos) s = s.substr(q + 6); size_t dsc = s.find(" (disc"); if (dsc != std::string::npos) s.resize(dsc);
    if (!sys || fn.back() == "?") fn.back() = name + " (" + s + ")";
    if (!sys) fixed = true;
  }
  pclose(f);
  for (size_t i = 0; i < fn.size(); ++i) out += (fault ? (i == 0 ? "  injected fault in: " : "    called from ") : i == 0 ? "  this access: " : i == 1 ? "  other access: " : "    called from ") + Clip(fn[i], 220) + "\n";
  if (sig && fn.size() >= 2) { auto base = [](std::string s) { size_t q = s.find(" ("); size_t z = s.find('('); return s.substr(0, std::min(q, z)); };
    std::string a, c;
    if (fault) { int n = 0; for (auto& f : fn) if (f.find("/usr/") == std::string::npos && f.find("??") == std::string::npos && n < 2) (n++ ? c : a) = base(f); }
    else { a = base(fn[0]); c = base(fn[1]); if (c < a) std::swap(a, c); }
     *sig = a + "|" + c; }
  return out;
}

static std::string Where(const std::string& kind, std::string* sig) {
  std::string a, b; if (Located(kind)) a = Symbolise(LastRacePcs(), sig);
  b = Symbolise(LastFaultPcs(), Located(kind) ? nullptr : sig, true); return a + b;
}

struct Found { Violation v; Plan plan; uint64_t wseed; Outcome o; std::string sym, sig; };

static Violation CheckP(Prop* p, Workload& w, const Plan& pl, Outcome& o) {
  CrashPlan c; c.on = pl.crash_on; c.io_index = pl.crash_io; c.access_index = pl.crash_access; c.writeback = pl.crash_writeback; SetCrash(c);
  return p->Check(w, pl, o);
}
// delta debugging of the recorded decisions
static void Minimise(Prop* p, Workload& w, Found& f, double budget_s) {
  double end = Now() + budget_s;
  Plan pl = f.plan; pl.scripted = true; pl.script = f.o.trace;
  Outcome o; Violation v = CheckP(p, w, pl, o);
  if (v.kind != f.v.kind) return;      // cannot be scripted exactly: keep the seeded plan
  f.plan = pl; f.o = o; f.v = v;
  std::vector<Rec> cur = pl.script;
  // the trace may hold decisions after the failure or ones without effect: adopt what the scripted run logged
  auto fails = [&](const std::vector<Rec>& s) {
    Plan q = pl; q.script = s; Outcome oo; Violation vv = CheckP(p, w, q, oo);
    if (vv.kind == f.v.kind) { f.plan = q; f.o = oo; f.v = vv; return true; }
    return false;
  };
  if (cur.size() && fails({})) cur.clear();
  size_t n = 2;
  while (cur.size() >= 1 && Now() < end) {
    size_t chunk = (cur.size() + n - 1) / n; bool reduced = false;
    for (size_t i = 0; i < cur.size() && Now() < end; i += chunk) {
      std::vector<Rec> t(cur.begin(), cur.begin() + i); t.insert(t.end(), cur.begin() + std::min(i + chunk, cur.size()), cur.end());
      if (fails(t)) { cur = t; n = std::max<size_t>(2, n - 1); reduced = true; break; }
    }
    if (!reduced) { if (chunk <= 1) break; n = std::min(n * 2, cur.size()); }
  }
}
static void WriteReplay(const std::string& path, Prop* p, const Found& f) {
  std::ostringstream o;
  o << "dsim-replay 1\nproperty=" << p->Name() << "\nworkload_seed=" << f.wseed << "\ntier=" << g_env.tier << "\nkind=" << f.v.kind << "\nhash=" << f.o.hash << "\n";
  SavePlan(o, f.plan);
  std::istringstream m(f.v.message + "\n" + f.sym); std::string l; while (std::getline(m, l)) o << "# " << l << "\n";
  WriteFile(path, o.str());
}

struct Args { std::map<std::string, std::string> m; std::string get(const std::string& k, const std::string& d = "") { auto i = m.find(k); return i == m.end() ? d : i->second; } };

static int Replay(Args& a) {
  std::ifstream in(a.get("file")); std::string line; Plan pl; uint64_t ws = 0, hash = 0; std::string prop, kind;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    size_t e = line.find('='); if (e == std::string::npos) continue;
    std::string k = line.substr(0, e), v = line.substr(e + 1);
    if (k == "property") prop = v; else if (k == "workload_seed") Get(v, ws); else if (k == "tier") Get(v, g_env.tier); else if (k == "kind") kind = v; else if (k == "hash") Get(v, hash);
    else LoadPlanLine(k, v, pl);
  }
  Prop* p = FindProp(prop); if (!p) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
  auto w = p->Make(ws); Outcome o; Violation v = CheckP(p, *w, pl, o);
  std::string sym; if (v.bad()) sym = Where(v.kind, nullptr);
  printf("{\"kind\":%s,\"message\":%s,\"hash\":\"%lu\",\"reproduced\":%s,\"same_hash\":%s,\"symbols\":%s,\"workload\":%s}\n", Json(v.kind).c_str(), Json(v.message).c_str(), (unsigned long)o.hash,
         v.kind == kind ? "true" : "false", o.hash == hash ? "true" : "false", Json(sym).c_str(), Json(w->Describe()).c_str());
  return v.bad() ? 1 : 0;
}

int main(int argc, char** argv) {
  // fixed address space: re-exec without randomisation where the sandbox allows it
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("DSIM_NOREEXEC")) {
    if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1) { setenv("DSIM_NOREEXEC", "1", 1); setenv("LD_BIND_NOW", "1", 1); execv("/proc/self/exe", argv); }
  }
  Args a; std::string mode = argc > 1 ? argv[1] : "list";
  for (int i = 2; i + 1 < argc; i += 2) a.m[argv[i] + 2] = argv[i + 1];
  // warm lazily initialised state of the C++ library in the pristine process
  { std::ostringstream s; s << 1.5 << 42 << std::endl; std::istringstream i("3 4.5"); int x; double d; i >> x >> d; }
  if (mode == "list") { for (auto p : Props()) printf("%s\n", p->Name()); return 0; }
  g_env.scratch = a.get("scratch"); g_env.tier = a.get("tier") == "thorough";
  mkdir(g_env.scratch.c_str(), 0755);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (mode == "replay") return Replay(a);
  Prop* p = FindProp(a.get("prop")); if (!p) { fprintf(stderr, "unknown property\n"); return 3; }
  uint64_t seed = strtoull(a.get("seed", "1").c_str(), 0, 10), first = strtoull(a.get("start", "0").c_str(), 0, 10), stride = strtoull(a.get("stride", "1").c_str(), 0, 10);
  uint64_t maxw = strtoull(a.get("max", "1000000000").c_str(), 0, 10);
  double limit = atof(a.get("time", "10").c_str()), t0 = Now(), end = t0 + limit;
  std::set<std::string> known; { std::ifstream k(a.get("known")); std::string l; while (std::getline(k, l)) known.insert(l); }
  uint64_t runs = 0, seeds = 0, steps = 0, accesses = 0, switches = 0, preempts = 0, threads = 0, nontrivial = 0, checked_twice = 0; double sim_s = 0;
  uint64_t faults[F_KIND_COUNT] = {0}, ops[OP_CLASSES] = {0}, ends[6] = {0};
  std::unordered_set<uint64_t> scheds, full; std::vector<std::string> samples; std::map<std::string, uint64_t> known_seen;
  int rc = 0; uint64_t wi = first, unrepeated = 0, irreproducible = 0; std::vector<std::string> notes;
  bool verbose = a.get("verbose") == "1";
  for (uint64_t n = 0; n < maxw && Now() < end; ++n, wi += stride) {
    Rng wr(seed * 1000003ULL + wi); uint64_t ws = wr.next();
    if (a.m.count("wseed")) ws = strtoull(a.get("wseed").c_str(), 0, 10);
    auto w = p->Make(ws); ++seeds;
    Rng pr(ws ^ 0xabcdef);
    for (int k = 0; Now() < end; ++k) {
      Plan pl; if (!p->NextPlan(*w, pr, k, pl)) break;
      Outcome o; Violation v = CheckP(p, *w, pl, o);
      ++runs; steps += o.steps; accesses += o.accesses; switches += o.switches; preempts += o.preempts; threads += o.threads; sim_s += o.sim_ns * 1e-9; ends[o.kind]++;
      uint64_t nf = 0; for (int i = 0; i < F_KIND_COUNT; ++i) { faults[i] += o.faults[i]; nf += o.faults[i]; }
      for (int i = 0; i < OP_CLASSES; ++i) ops[i] += o.ops[i];
      if (o.trace.size()) ++nontrivial;
      if (scheds.size() < 400000) scheds.insert(o.sched_hash ^ ws); if (full.size() < 400000 && (o.trace.size() || nf)) full.insert(o.hash ^ ws);
      if (samples.size() < 4 && o.trace.size() && (runs % 7 == 1)) { std::ostringstream s; s << p->Name() << " workload_seed=" << ws << " plan=" << k << " [" << Clip(w->Describe(), 160) << "]: " << Describe(o) << ", threads=" << o.threads << " steps=" << o.steps << " switches=" << o.switches << " deviations=" << o.trace.size() << " faults=" << nf << " hash=" << std::hex << o.hash; samples.push_back(s.str()); }
      if (verbose) fprintf(stderr, "w%lu k%d %s steps=%lu acc=%lu thr=%d sw=%lu %s\n", (unsigned long)wi, k, Describe(o).c_str(), (unsigned long)o.steps, (unsigned long)o.accesses, o.threads, (unsigned long)o.switches, v.kind.c_str());
      if (!v.bad() && ((runs % 97) == 1 || a.m.count("recheck"))) {   // determinism self-check
        Outcome o2; Violation v2 = CheckP(p, *w, pl, o2); ++checked_twice;
        if ((o2.hash != o.hash || v2.kind != v.kind) && ++irreproducible > (a.m.count("recheck") ? 0 : 2)) { printf("{\"error\":%s}\n", Json("run is not reproducible: workload_seed=" + std::to_string(ws) + " plan " + std::to_string(k) + " " + Describe(o) + " / " + Describe(o2)).c_str()); rc = 2; goto done; }
      }
      if (v.bad()) {
        Found f; f.v = v; f.plan = pl; f.wseed = ws; f.o = o;
        Outcome o2; Violation v2 = CheckP(p, *w, pl, o2);
        if (v.kind == "infrastructure" || v2.kind != v.kind || o2.hash != o.hash) {
          fprintf(stderr, "finding did not repeat: %s: %s workload_seed=%lu plan=%d second: %s %s\n", v.kind.c_str(), v.message.c_str(), (unsigned long)ws, k, v2.kind.c_str(), Describe(o2).c_str());
          if (notes.size() < 3) notes.push_back(v.kind + ": " + Clip(v.message, 300) + " workload_seed=" + std::to_string(ws) + " plan=" + std::to_string(k) + " second: " + v2.kind + " " + Describe(o2));
          if (unrepeated++ < 5) continue;    // look for a failure that is a function of the seed
          printf("{\"error\":%s}\n", Json("finding does not repeat: " + v.kind + ": " + v.message + " workload_seed=" + std::to_string(ws) + " plan " + std::to_string(k) + " second: " + v2.kind + " " + Describe(o2)).c_str()); rc = 2; goto done;
        }
        f.sig = v.kind; { std::string s; f.sym = Where(v.kind, &s); if (!s.empty()) f.sig += ":" + s; }
        if (known.count(f.sig)) { known_seen[f.sig]++; continue; }
        Minimise(p, *w, f, atof(a.get("minimise", "30").c_str()));
        Outcome o3; Violation v3 = CheckP(p, *w, f.plan, o3);
        if (v3.kind != f.v.kind || o3.hash != f.o.hash) { printf("{\"error\":%s}\n", Json("minimised finding does not repeat: " + f.v.kind + ": " + f.v.message).c_str()); rc = 2; goto done; }
        f.sym = Where(v.kind, nullptr);
        std::string path = a.get("replay", g_env.scratch + "/replay") + "." + std::to_string(first) + ".txt";
        WriteReplay(path, p, f);
        printf("{\"violation\":{\"kind\":%s,\"signature\":%s,\"message\":%s,\"symbols\":%s,\"replay\":%s,\"workload_seed\":\"%lu\",\"decisions\":%zu,\"original_decisions\":%zu,\"workload\":%s}}\n", Json(f.v.kind).c_str(), Json(f.sig).c_str(), Json(f.v.message).c_str(), Json(f.sym).c_str(), Json(path).c_str(), (unsigned long)ws, f.plan.script.size(), o.trace.size(), Json(w->Describe()).c_str());
        rc = 1; goto done;
      }
    }
  }
  // one run in tens of thousands may be disturbed from outside (a machine short of memory or processes);
  // such a run proves nothing and is reported in the evidence, more of them make the check give no answer
  if (unrepeated > 2) { printf("{\"error\":%s}\n", Json(std::to_string(unrepeated) + " findings that did not repeat: " + notes[0]).c_str()); rc = 2; }
done:
  printf("{\"summary\":{\"runs\":%lu,\"seeds\":%lu,\"steps\":%lu,\"accesses\":%lu,\"switches\":%lu,\"preempts\":%lu,\"threads\":%lu,\"nontrivial\":%lu,\"sim_s\":%.3f,\"wall_s\":%.3f,\"rechecked\":%lu,\"irreproducible\":%lu,\"last_index\":%lu", (unsigned long)runs, (unsigned long)seeds, (unsigned long)steps, (unsigned long)accesses, (unsigned long)switches, (unsigned long)preempts, (unsigned long)threads, (unsigned long)nontrivial, sim_s, Now() - t0, (unsigned long)checked_twice, (unsigned long)irreproducible, (unsigned long)wi);
  printf(",\"unrepeated\":["); for (size_t i = 0; i < notes.size(); ++i) printf("%s%s", i ? "," : "", Json(notes[i]).c_str()); printf("]");
  printf(",\"distinct_sched\":%zu,\"distinct_full\":%zu,\"faults\":{", scheds.size(), full.size());
  for (int i = 1; i < F_KIND_COUNT; ++i) printf("%s\"%s\":%lu", i > 1 ? "," : "", kFaultName[i], (unsigned long)faults[i]);
  printf("},\"ops\":{"); for (int i = 0; i < OP_CLASSES; ++i) printf("%s\"%s\":%lu", i ? "," : "", kOpName[i], (unsigned long)ops[i]);
  printf("},\"ends\":{\"exit\":%lu,\"abort\":%lu,\"signal\":%lu,\"verdict\":%lu,\"crashed\":%lu}", (unsigned long)ends[0], (unsigned long)ends[1], (unsigned long)ends[2], (unsigned long)ends[3], (unsigned long)ends[4]);
  printf(",\"reach\":{"); bool fst = true; for (auto& kv : g_env.reach) { printf("%s%s:%lu", fst ? "" : ",", Json(kv.first).c_str(), (unsigned long)kv.second); fst = false; }
  printf("},\"known\":{"); fst = true; for (auto& kv : known_seen) { printf("%s%s:%lu", fst ? "" : ",", Json(kv.first).c_str(), (unsigned long)kv.second); fst = false; }
  printf("},\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) printf("%s%s", i ? "," : "", Json(samples[i]).c_str());
  printf("]}}\n");
  return rc;
}
