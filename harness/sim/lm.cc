// Language models: estimation, queries and binary files against executable reference models.
#include "jobs.h"
#include "lmref.h"
#include <algorithm>
#include <functional>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
using namespace dsim;
int lmplz_main(int, char**); int build_binary_main(int, char**); int query_main(int, char**);
typedef std::vector<int> G;
// ==================================================================== reference estimator
struct EstConf {
  int order = 3; bool skip = false, fallback = false, interp = true, collapse = false, verbose = false; float fb[4] = {0, 0.5f, 1, 1.5f};
  std::vector<long> prune; bool limit = false; std::set<std::string> allowed; long pad = 0;
};
struct Est { bool refuse = false; std::string why; std::vector<std::map<SV, Entry>> g; std::vector<long> counts; long tokens = 0; };
static Est Estimate(const std::string& text, const EstConf& c) {
  Est out; std::map<std::string, int> id; SV name = {"<unk>", "<s>", "</s>"}; for (int i = 0; i < 3; ++i) id[name[i]] = i;
  const int M = c.order; std::vector<std::map<G, long>> raw(M + 1); bool lines = false;
  for (auto& line : Lines(text)) {
    G h(M - 1, 1); lines = true;
    auto app = [&](int w) { h.push_back(w); G f(h.end() - M, h.end()); raw[M][f]++; };
    for (auto& w : Split(line, std::string("\t\r ").c_str())) {
      if (w == "<unk>" || w == "<s>" || w == "</s>") { if (!c.skip) { out.refuse = true; out.why = "special word"; return out; } continue; }
      auto it = id.find(w); if (it == id.end()) { it = id.emplace(w, (int)name.size()).first; name.push_back(w); }
      out.tokens++; app(it->second);
    }
    app(2);
  }
  if (!lines) { out.refuse = true; out.why = "empty"; return out; }
  // raw and adjusted counts
  struct Cell { long raw = 0, adj = 0; bool mark = false; std::set<int> left; };
  std::vector<std::map<G, Cell>> t(M + 1);
  if (M == 1) { t[1][{0}]; t[1][{1}]; }
  for (auto& kv : raw[M]) {
    const G& f = kv.first;
    if (M == 1 || f[1 % M] != 1) { Cell& x = t[M][f]; x.raw = x.adj = kv.second; }
    for (int n = 1; n < M; ++n) { G s(f.end() - n, f.end()); if (n > 1 && s[1] == 1) break; Cell& x = t[n][s]; x.raw += kv.second; if (s[0] != 1) x.left.insert(f[M - n - 1]); if (s[0] == 1) break; }
  }
  for (int n = 1; n < M; ++n) for (auto& kv : t[n]) kv.second.adj = kv.first[0] == 1 ? kv.second.raw : (long)kv.second.left.size();
  if (M > 1) { t[1][{0}]; t[1][{1}]; }
  std::vector<bool> banned(name.size(), false);
  if (c.limit) for (size_t i = 3; i < name.size(); ++i) banned[i] = !c.allowed.count(name[i]);
  for (int n = 1; n <= M; ++n) {
    long th = c.prune.empty() ? 0 : n <= (int)c.prune.size() ? c.prune[n - 1] : c.prune.back();
    for (auto& kv : t[n]) { if (n == 1 && kv.first[0] <= 2) continue; if (kv.second.raw <= th) kv.second.mark = true; for (int w : kv.first) if (banned[w]) kv.second.mark = true; }
  }
  // discounts
  std::vector<std::vector<float>> D(M + 1, std::vector<float>(4, 0.f));
  for (int n = 1; n <= M; ++n) {
    unsigned long k[5] = {0}; for (auto& kv : t[n]) if (kv.second.adj < 5) k[kv.second.adj]++;
    bool bad = !k[1] || !k[2] || !k[3]; float y = static_cast<float>(k[1]) / static_cast<float>(k[1] + 2.0 * k[2]);
    for (int j = 1; j < 4 && !bad; ++j) { D[n][j] = static_cast<float>(j) - static_cast<float>(j + 1) * y * static_cast<float>(k[j + 1]) / static_cast<float>(k[j]); if (D[n][j] < 0.0 || D[n][j] > j) bad = true; }
    if (bad) { if (!c.fallback) { out.refuse = true; out.why = "discounts of order " + N(n); return out; } for (int j = 0; j < 4; ++j) D[n][j] = c.fb[j]; }
  }
  // interpolation weight and denominator per context
  struct Ctx { double gamma = 0, den = 0; };
  std::vector<std::map<G, Ctx>> ctx(M + 1);
  for (int n = 1; n <= M; ++n) for (auto& kv : t[n]) {
    Ctx& x = ctx[n][G(kv.first.begin(), kv.first.end() - 1)]; long cut = kv.second.mark ? 0 : kv.second.adj;
    x.den += kv.second.adj; x.gamma += kv.second.adj - cut; if (cut) x.gamma += D[n][std::min(cut, 3L)];
  }
  for (int n = 1; n <= M; ++n) for (auto& kv : ctx[n]) kv.second.gamma /= kv.second.den;
  out.g.resize(M + 1); out.counts.assign(M, 0);
  for (int n = 1; n <= M; ++n) for (auto& kv : t[n]) if (!kv.second.mark) out.counts[n - 1]++;
  double uniform = 1.0 / (double)std::max(c.pad, out.counts[0] - 1);
  std::vector<std::map<G, double>> P(M + 1), Q(M + 1);
  for (int n = 1; n <= M; ++n) for (auto& kv : t[n]) {
    if (kv.second.mark) continue; const G& g = kv.first; G h(g.begin(), g.end() - 1), suf(g.begin() + 1, g.end()); const Ctx& x = ctx[n][h]; double p, gam = x.gamma;
    float disc = static_cast<float>(kv.second.adj) - D[n][std::min(kv.second.adj, 3L)];
    if (n == 1) {
      double u = disc / x.den; if (!c.interp) gam = 0;
      if (g[0] == 0) p = (c.interp ? 0 : x.gamma) + gam * uniform; else if (g[0] == 1) { p = 1; gam = 0; } else p = u + gam * uniform;
    } else p = disc / x.den + gam * P[n - 1][suf];
    P[n][g] = p;
    double b = 1; if (n < M && g.back() != 0 && g.back() != 2) { auto it = ctx[n + 1].find(g); if (it != ctx[n + 1].end()) b = it->second.gamma; }
    SV w; for (int i : g) w.push_back(name[i]);
    Entry e; e.has_back = n < M;
    if (c.collapse) { double q = n == 1 ? b : Q[n - 1][suf] / gam * b; Q[n][g] = q; e.prob = log10(p * q); e.back = 0; }
    else { e.prob = std::min(0.0, log10(p)); e.back = log10(b); }
    out.g[n][w] = e;
  }
  return out;
}
static bool Near(double want, double got, double tol) {
  if (want != want) return true;
  if (isinf(want) || isinf(got)) return (isinf(want) || want < -6) && (isinf(got) || got < -6);   // nothing left of the mass but rounding
  if (want < -6) tol *= 1000;
  return fabs(want - got) <= tol * (1 + fabs(want));
}
static std::string CompareEst(const Est& e, const Arpa& a, double tol) {
  if (!a.error.empty()) return "the ARPA file is malformed: " + a.error;
  int M = (int)e.counts.size(); if (a.order != M) return "the model has order " + N(a.order) + " instead of " + N(M);
  for (int n = 1; n <= M; ++n) {
    for (auto& kv : e.g[n]) {
      auto it = a.g[n].find(kv.first); std::string w = "\"" + Join(kv.first) + "\""; char b[200];
      if (it == a.g[n].end()) return "the " + N(n) + "-gram " + w + " is missing";
      if (!Near(kv.second.prob, it->second.prob, tol)) { snprintf(b, sizeof b, "%.9g instead of %.9g", it->second.prob, kv.second.prob); return "log probability of " + w + " is " + b; }
      if (it->second.has_back != kv.second.has_back) return "back-off of " + w + (kv.second.has_back ? " is missing" : " is not expected");
      if (kv.second.has_back && !Near(kv.second.back, it->second.back, tol)) { snprintf(b, sizeof b, "%.9g instead of %.9g", it->second.back, kv.second.back); return "log back-off of " + w + " is " + b; }
    }
    for (auto& kv : a.g[n]) if (!e.g[n].count(kv.first)) return "the " + N(n) + "-gram \"" + Join(kv.first) + "\" is not in the text or was to be pruned";
  }
  return "";
}
// sizes of buffers that the program accepts
static void AddMemory(Rng& r, int order, SV& a) {
  long gram = order * 4 + 8, mb = r.chance(0.4) ? gram * r.range(1, 6) : r.chance(0.5) ? r.range(64, 600) : r.range(1, 4) * 1024; mb = std::max(mb, gram);
  long bc = r.chance(0.5) ? 2 : r.range(2, 5), sb = r.chance(0.5) ? mb : mb * r.range(1, 5), sum = 0, est = r.range(1, 200);
  for (int n = 1; n <= order; ++n) sum += n * (n * 4 + 8);
  mb = std::max(mb, bc * sum / order + order); sb = std::max(sb, mb); sb = std::max(sb, bc * sum / order + order);                // every order gets its number of blocks
  long S = std::max(std::max(sb * 4, mb * order * bc), 1000L) + est * 40 + (r.chance(0.5) ? 0 : r.range(0, 20000)) + 2048;
  auto add = [&](const std::string& o, const std::string& v) { a.push_back(o); a.push_back(v); };
  add("--minimum_block", N(mb) + "b"); add("--sort_block", N(sb) + "b"); add("-S", N(S) + "b"); add("--vocab_estimate", N(est)); if (bc != 2) add("--block_count", N(bc));
}
struct EstW : Workload { Job j; EstConf c; Est ref; std::string want; Violation pre; std::string Describe() { return j.what; } };
static std::string EstText(Rng& r) {
  int style = r.below(4), vocab = r.range(3, style == 3 ? 60 : 25);
  std::string t = GenCorpus(r, r.chance(0.06) ? r.range(300, 700) : r.range(1, style == 0 ? 4 : g_env.tier ? 160 : 60), vocab, r.range(1, 12), true);
  if (style == 1) { std::string base = t; for (int k = r.range(1, 3); k > 0; --k) { auto l = Lines(base); for (auto& x : l) if (r.chance(0.5)) t += x + "\n"; } }      // repeated lines: higher counts
  if (r.chance(0.2)) { std::string u; for (char ch : t) { if (ch == ' ' && r.chance(0.1)) { static const char* ws[] = {"\t", "  ", " \r", "\t "}; u += ws[r.below(4)]; } else u += ch; } t = u; }
  if (r.chance(0.1) && !t.empty()) t.resize(t.size() - 1);    // no newline at the end
  return t;
}
struct LmplzProp : Prop {
  const char* Name() { return "lmplz-estimates-correctly"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<EstW>(new EstW); EstConf& c = w->c; Job& j = w->j; std::string text = EstText(r);
    c.order = r.range(1, 4); if (g_env.tier && r.chance(0.2)) c.order = r.range(5, 6);
    j.tool = "lmplz"; j.fn = lmplz_main; auto add = [&](const std::string& o, const std::string& v) { j.args.push_back(o); j.args.push_back(v); };
    if (r.chance(0.15)) { auto l = Lines(text); if (l.empty()) l.push_back("c0"); static const char* sp[] = {"<s>", "</s>", "<unk>"}; size_t k = r.below(l.size()); l[k] += std::string(" ") + sp[r.below(3)]; if (r.chance(0.5)) l[k] = std::string(sp[r.below(3)]) + " " + l[k]; text.clear(); for (auto& x : l) text += x + "\n"; if (r.chance(0.8)) c.skip = true; }
    if (c.skip) j.args.push_back("--skip_symbols");
    add("-o", N(c.order)); add("-T", "@/tmp");
    if (r.chance(0.3)) { c.interp = r.chance(0.5); add("--interpolate_unigrams", c.interp ? "1" : "0"); }
    if (c.interp && r.chance(0.1)) { c.pad = r.range(1, 100); add("--vocab_pad", N(c.pad)); }
    if (r.chance(0.1)) { c.collapse = true; j.args.push_back("--collapse_values"); }
    if (r.chance(0.1)) { c.verbose = true; j.args.push_back("--verbose_header"); }
    if (r.chance(0.35)) { c.prune.push_back(0); j.args.push_back("--prune"); j.args.push_back("0"); for (int n = 2; n <= c.order && r.chance(0.8); ++n) { c.prune.push_back(c.prune.back() + (r.chance(0.5) ? r.range(0, 2) : 0)); j.args.push_back(N(c.prune.back())); } }
    if (r.chance(0.15)) { c.limit = true; for (auto& l : Lines(text)) for (auto& x : Split(l, " \t\r")) if (r.chance(0.1)) c.allowed.insert(x); SV a(c.allowed.begin(), c.allowed.end()); if (r.chance(0.3)) a.push_back("nowhere"); j.files["lv"] = Join(a) + "\n"; add("--limit_vocab_file", "@/lv"); }
    if (r.chance(0.85)) { c.fallback = true; j.args.push_back("--discount_fallback"); if (r.chance(0.4)) { float last = 0; int k = r.range(1, 3); char b[32]; for (int i = 1; i <= k; ++i) { snprintf(b, sizeof b, "%.3f", r.unit() * i); j.args.push_back(b); last = c.fb[i] = strtof(b, nullptr); } for (int i = k + 1; i <= 3; ++i) c.fb[i] = last; } }
    j.files["text"] = text; if (r.chance(0.5)) add("--text", "@/text"); else j.stdin_file = "text";
    if (r.chance(0.5)) { add("--arpa", "@/out.arpa"); j.outputs.push_back("out.arpa"); }
    j.what = "lmplz " + Join(j.args) + ", " + N(Lines(text).size()) + " lines"; w->ref = Estimate(text, c);
    g_env.Reach(w->ref.refuse ? "to_be_refused" : "to_be_estimated"); if (!w->ref.refuse) { g_env.Reach("order_" + N(c.order)); if (!c.prune.empty()) g_env.Reach("pruned"); if (c.limit) g_env.Reach("limited_vocabulary"); }
    JobPrepare(j, g_env.scratch); return w;
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { if (k >= 6) return false; if (k == 0) p = Plain(); else { RandomSchedule(r, p); RandomBenignIo(r, p); p.step_limit = 4000000; if (r.chance(0.4)) p.strategy = 0; p.heap_seed = r.next() | 1; } p.user = (int64_t)(r.next() >> 1); return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    EstW& w = (EstW&)ww; Job j = w.j; Rng r(p.user); SV mem; AddMemory(r, w.c.order, mem); j.args.insert(j.args.begin(), mem.begin(), mem.end());
    JobResult got; o = JobRun(j, p, g_env.scratch, 0, &got); Violation v = Universal(o, true); if (v.bad()) return v;
    std::string err = Clip(ReadFile(g_env.scratch + "/stderr"), 400);
    if (w.ref.refuse) { if (o.ok_exit()) return {"not-refused", "lmplz accepted a text that it has to refuse (" + w.ref.why + ")"}; return v; }
    if (!o.ok_exit() && std::count(w.ref.counts.begin(), w.ref.counts.end(), 0)) { g_env.Reach("refused_empty_order"); return v; }   // no n-gram of some length in the text: there is no such model
    if (!o.ok_exit() && atol(mem[1].c_str()) < 1024 && ReadFile(g_env.scratch + "/stderr").find("ChainConfigException") != std::string::npos) { g_env.Reach("refused_tiny_memory"); return v; }
    if (!o.ok_exit()) return {"estimation-failed", "lmplz " + Join(mem) + " ended with " + Describe(o) + ": " + err};
    const std::string& s = j.outputs.empty() ? got.out["standard output"] : got.out["out.arpa"];
    Arpa a = ParseArpa(s, w.c.verbose); std::string d = CompareEst(w.ref, a, 3e-5);
    if (!d.empty()) return {"wrong-estimate", "lmplz " + Join(mem) + ": " + d};
    if (w.c.verbose && s.find("# Token count: " + N(w.ref.tokens) + "\n") == std::string::npos) return {"wrong-header", "the header does not report " + N(w.ref.tokens) + " tokens: " + Clip(s, 200)};
    return v;
  }
};
static Reg r1(new LmplzProp);

// ==================================================================== queries
struct ExpTok { int kind; std::string s; double x; };    // 0 literal, 1 number, 2 vocabulary id of the word s (x = 1: unknown)
static std::vector<ExpTok> RefQuery(const RefLm& m, const std::string& text, bool sent, bool words, std::vector<std::string>* sents = nullptr) {
  std::vector<ExpTok> o; double total = 0, oov_only = 0; long oov = 0, tokens = 0; size_t i = 0;
  auto word = [&](const std::string& surface, const std::string& w, bool unk, int len, double p) { if (!words) return; o.push_back({0, surface + "=", 0}); o.push_back({2, w, unk ? 1. : 0.}); o.push_back({3, N(len), (double)len}); o.push_back({1, "", p}); };
  while (i < text.size()) {
    size_t e = text.find('\n', i); bool nl = e != std::string::npos; std::string line = text.substr(i, nl ? e - i : std::string::npos); i = nl ? e + 1 : text.size();
    SV h; if (sent) h.push_back("<s>"); double t = 0; long u = 0; int len;
    for (auto& s : Split(line, " \t\r\v\f")) { bool unk = !m.Known(s); std::string w = unk ? "<unk>" : s; double p = m.Score(h, w, &len); t += p; ++tokens; if (unk) { ++u; oov_only += p; } word(s, s, unk, len, p); h.push_back(w); }
    if (!nl) break;
    if (sent) { double p = m.Score(h, "</s>", &len); t += p; ++tokens; word("</s>", "</s>", false, len, p); }
    o.push_back({0, "Total:", 0}); o.push_back({1, "", t}); o.push_back({0, "OOV:", 0}); o.push_back({0, N(u), 0}); total += t; oov += u;
  }
  if (words) {
    for (auto& s : {"Perplexity", "including", "OOVs:"}) o.push_back({0, s, 0}); o.push_back({1, "ppl", tokens ? -total / tokens : NAN});
    for (auto& s : {"Perplexity", "excluding", "OOVs:"}) o.push_back({0, s, 0}); o.push_back({1, "ppl", tokens - oov ? -(total - oov_only) / (tokens - oov) : NAN});
    o.push_back({0, "OOVs:", 0}); o.push_back({0, N(oov), 0}); o.push_back({0, "Tokens:", 0}); o.push_back({0, N(tokens), 0});
  }
  return o;
}
// empty: the output is the expected one
static std::string CompareQuery(const std::vector<ExpTok>& e, const std::string& out, bool numbers, bool holes) {
  SV t = Split(out, " \t\n"), f; std::map<std::string, std::string> ids; std::map<std::string, std::string> back;
  for (auto& x : t) { size_t q = x.rfind('='); if (q != std::string::npos && q + 1 < x.size()) { f.push_back(x.substr(0, q + 1)); f.push_back(x.substr(q + 1)); } else f.push_back(x); }
  for (size_t i = 0; i < e.size(); ++i) {
    std::string at = " (item " + N(i + 1) + " of the output" + (i >= 1 && i <= f.size() ? ", after \"" + f[i - 1] + "\"" : "") + ")";
    if (i >= f.size()) return "the output ends early" + at;
    const ExpTok& x = e[i]; const std::string& g = f[i]; char* end; 
    if (x.kind == 0) { if (g != x.s) return "\"" + Clip(g, 60) + "\" instead of \"" + x.s + "\"" + at; continue; }
    double v = strtod(g.c_str(), &end); if (*end) return "\"" + Clip(g, 60) + "\" is not a number" + at;
    if (x.kind == 2) {
      if ((g == "0") != (x.x == 1)) return "word \"" + x.s + "\" " + (x.x == 1 ? "is not known but has an identifier" : "is known but treated as unknown") + at;
      if (x.x == 1) continue;
      if (ids.count(x.s) ? ids[x.s] != g : back.count(g) > 0) return "word \"" + x.s + "\" has the wrong identifier" + at;
      ids[x.s] = g; back[g] = x.s; continue;
    }
    if (x.kind == 3) { if (holes ? v < x.x : v != x.x) return "an n-gram of length " + g + " matches instead of " + x.s + at; continue; }
    if (!numbers) continue;
    double want = x.x; if (x.s == "ppl") { if (want != want) continue; v = log10(v); }
    if (fabs(v - want) > 2e-5 * (1 + fabs(want)) + (x.s == "ppl" ? 1e-5 : 1e-6)) { char b[100]; snprintf(b, sizeof b, "%.7g instead of %.7g", v, want); return b + at; }
  }
  if (f.size() > e.size()) return "unexpected output at the end: \"" + Clip(f[e.size()], 60) + "\"";
  return "";
}
// removes n-grams that longer ones end with: back-off has to fill the gap
static bool Holes(Rng& r, Arpa& a) {
  bool any = false;
  for (int n = a.order - 1; n >= 2; --n) {
    std::set<SV> keep; for (auto& kv : a.g[n + 1]) keep.insert(SV(kv.first.begin(), kv.first.end() - 1));
    for (auto it = a.g[n].begin(); it != a.g[n].end();) if (!keep.count(it->first) && a.g[n].size() > 1 && r.chance(0.5)) { it = a.g[n].erase(it); any = true; } else ++it;
  }
  for (int n = 1; n <= a.order; ++n) a.counts[n - 1] = a.g[n].size();
  return any;
}
static std::string PrintArpa(const Arpa& a) {
  std::string o = "\\data\\\n"; char b[64];
  for (int n = 1; n <= a.order; ++n) o += "ngram " + N(n) + "=" + N(a.counts[n - 1]) + "\n";
  for (int n = 1; n <= a.order; ++n) {
    o += "\n\\" + N(n) + "-grams:\n";
    for (auto& kv : a.g[n]) { snprintf(b, sizeof b, "%.7g", kv.second.prob); o += b + ("\t" + Join(kv.first)); if (kv.second.has_back) { snprintf(b, sizeof b, "\t%.7g", kv.second.back); o += b; } o += "\n"; }
  }
  return o + "\n\\end\\\n";
}
struct QueryW : Workload {
  Job b, j; RefLm m; std::string file; bool quant = false, exact = true, sent = true, words = true, holes = false; std::vector<ExpTok> want; std::string first; Violation pre; std::string text;
  std::string Describe() { return (b.tool.empty() ? "" : b.what + "; ") + j.what; }
};
static SV LmVocab(Rng& r, int n) { SV v; for (int i = 0; i < n; ++i) v.push_back(r.chance(0.15) ? "w\xc3\xa9" + N(i) : std::string(r.chance(0.5) ? "c" : "word") + N(i)); return v; }
static void BuildArgs(Rng& r, Job& b, const std::string& arpa, const std::string& out, bool& quant, bool& exact, bool holes = false) {
  std::string type = r.chance(0.4) ? "probing" : "trie"; b.tool = "build_binary"; b.fn = build_binary_main; b.args.clear(); quant = false; exact = true;
  if (type == "trie") {
    if (r.chance(0.35)) { int q = r.range(2, 12), k = q; b.args.push_back("-q"); b.args.push_back(N(q)); if (r.chance(0.5)) { k = r.range(2, 12); b.args.push_back("-b"); b.args.push_back(N(k)); } quant = true; exact = q >= 10 && k >= 10; }
    if (r.chance(0.35)) { b.args.push_back("-a"); b.args.push_back(N(r.range(1, 60))); }
  } else if (holes) { b.args.push_back("-p"); b.args.push_back("8"); }       // as the program asks for in this case
  else if (r.chance(0.4)) { char s[32]; snprintf(s, sizeof s, "%.2f", 1.1 + r.unit()); b.args.push_back("-p"); b.args.push_back(s); }
  if (r.chance(0.6)) { b.args.push_back("-w"); b.args.push_back(r.chance(0.5) ? "mmap" : "after"); }
  b.args.push_back("-S"); b.args.push_back(r.chance(0.5) ? "1M" : N(r.range(64, 3000)) + "b"); b.args.push_back("-T"); b.args.push_back("@/tmp"); b.args.push_back(type); b.args.push_back("@/" + arpa); b.args.push_back("@/" + out); b.outputs = {out}; b.what = "build_binary " + Join(b.args);
}
// most words continue an n-gram of the model, the others are arbitrary
static std::string QueryText(Rng& r, const SV& words, int lines, const Arpa* a = 0) {
  std::map<SV, SV> next; if (a) for (int n = 2; n <= a->order; ++n) for (auto& kv : a->g[n]) next[SV(kv.first.begin(), kv.first.end() - 1)].push_back(kv.first.back());
  double follow = a ? r.unit() : 0; std::string t;
  for (int i = 0; i < lines; ++i) {
    int n = r.range(0, 9); SV h(1, "<s>");
    for (int k = 0; k < n; ++k) {
      std::string w = r.chance(0.07) ? "zzz" + N(r.below(3)) : words[r.below(words.size())];
      if (r.chance(follow)) for (size_t b = r.below(2) ? 0 : r.below(h.size()); b < h.size(); ++b) { auto it = next.find(SV(h.begin() + b, h.end())); if (it == next.end()) continue; std::string c = it->second[r.below(it->second.size())]; if (c == "</s>" || c == "<s>") continue; w = c; break; }
      if (k) t += r.chance(0.1) ? "\t" : " "; t += w; h.push_back(w); if (a && (int)h.size() >= a->order) h.erase(h.begin());
    }
    t += "\n";
  }
  if (r.chance(0.1) && !t.empty()) t.resize(t.size() - 1);
  return t;
}
// every n-gram of the model, followed by words that may or may not follow it
static std::string EveryNgram(Rng& r, const SV& words, const Arpa& a) {
  std::string t; int n = 0, lines = 0; size_t total = 0; for (int o = 1; o <= a.order; ++o) total += a.g[o].size(); double keep = std::min(1.0, 500.0 / total);
  for (int o = 1; o <= a.order; ++o) for (auto& kv : a.g[o]) {
    if (!r.chance(keep)) continue; SV h = kv.first; if (h[0] == "<s>") h.erase(h.begin()); if (!h.empty() && h.back() == "</s>") h.pop_back(); if (h.empty() || std::count(h.begin(), h.end(), "<s>") || std::count(h.begin(), h.end(), "</s>")) continue;
    for (int k = 1 + (n++ % 2); k > 0; --k) { t += Join(h); if (!r.chance(0.2)) t += " " + words[r.below(words.size())]; if (r.chance(0.2)) t += " " + words[r.below(words.size())]; t += "\n"; ++lines; }
  }
  return t;
}
struct QueryProp : Prop {
  const char* Name() { return "lm-query-faithful"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<QueryW>(new QueryW); Job& j = w->j; SV words = LmVocab(r, r.chance(0.15) ? r.range(40, 110) : r.range(2, g_env.tier ? 40 : 16));
    std::string arpa; do { arpa = GenArpa(r, words, r.range(2, r.chance(0.2) ? 6 : 4), r.chance(0.8)); w->m.a = ParseArpa(arpa); } while (w->m.a.order < 2);
    if (r.chance(0.25) && w->m.a.order > 2) { w->holes = Holes(r, w->m.a); arpa = PrintArpa(w->m.a); if (w->holes) g_env.Reach("pruned_suffixes"); }
    if (!w->m.a.error.empty()) w->pre = {"harness", w->m.a.error};
    if (r.chance(0.1)) { size_t at = arpa.find("\t<unk>"); if (at != std::string::npos) { arpa.replace(at, 6, "\t<UNK>"); g_env.Reach("capital_unk"); } }
    w->file = "model.arpa"; std::map<std::string, std::string> files; files[w->file] = arpa;
    if (r.chance(0.8)) {
      Job& b = w->b; BuildArgs(r, b, w->file, "model.bin", w->quant, w->exact, w->holes); b.files = files; JobPrepare(b, g_env.scratch); Plan p = Plain(); if (r.chance(0.5)) RandomBenignIo(r, p); p.seed = r.next(); p.heap_seed = r.next() | 1;
      JobResult res; Outcome o = JobRun(b, p, g_env.scratch, 0, &res); Violation v = Universal(o, true);
      if (v.bad()) w->pre = v; else if (!o.ok_exit()) w->pre = {"build-failed", w->b.what + " ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
      w->file = "model.bin"; files.clear(); files["model.bin"] = res.out["model.bin"]; g_env.Reach(b.args[b.args.size() - 3] + (w->quant ? "_quantised" : "") + (std::count(b.args.begin(), b.args.end(), "-a") ? "_array" : ""));
    } else g_env.Reach("arpa");
    if (!w->exact) w->exact = false;
    bool all = r.chance(words.size() >= 40 ? 0.5 : 0.15);
    w->text = QueryText(r, words, r.chance(0.06) ? r.range(150, 400) : r.range(0, g_env.tier ? 40 : 12), &w->m.a); if (all) { w->text += "\n" + EveryNgram(r, words, w->m.a); g_env.Reach("every_ngram"); } w->sent = !r.chance(0.25); w->words = !r.chance(0.15);
    j.tool = "query"; j.fn = query_main; if (!w->sent) j.args.push_back("-n"); if (!w->words) j.args.push_back("-s"); j.files = files; j.files["text"] = w->text; j.stdin_file = "text"; j.what = "query " + Join(j.args) + " @/" + w->file;
    w->want = RefQuery(w->m, w->text, w->sent, w->words); JobPrepare(j, g_env.scratch); return w;
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { QueryW& w = (QueryW&)ww; if (w.pre.bad()) { p = Plain(); return k == 0; } if (k >= 6) return false; if (k == 0) p = Plain(); else { RandomSchedule(r, p); RandomBenignIo(r, p); p.heap_seed = r.next() | 1; } p.user = k; return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    QueryW& w = (QueryW&)ww; static const char* lm[] = {"", "lazy", "populate", "read", "parallel", ""};
    Job j = w.j; std::string l = lm[p.user % 6]; if (!l.empty()) { j.args.push_back("-l"); j.args.push_back(l); } j.args.push_back("@/" + w.file);
    JobResult got; o = JobRun(j, p, g_env.scratch, 0, &got); if (w.pre.bad()) return w.pre; Violation v = Universal(o, true); if (v.bad()) return v;
    if (!o.ok_exit() && w.holes && w.b.tool.empty() && ReadFile(g_env.scratch + "/stderr").find("Increase probing_multiplier") != std::string::npos) { g_env.Reach("refused_full_table"); return v; }
    if (!o.ok_exit()) return {"query-failed", "query " + Join(j.args) + " ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)};
    std::string d = CompareQuery(w.want, got.out["standard output"], w.exact, w.holes);
    if (!d.empty()) return {"wrong-answer", "query " + Join(j.args) + ": " + d};
    if (w.first.empty()) w.first = got.out["standard output"]; else if (w.first != got.out["standard output"]) return {"load-method-matters", "query " + Join(j.args) + ": " + FirstDiff(w.first, got.out["standard output"])};
    return v;
  }
};
static Reg r2(new QueryProp);

// ==================================================================== power loss while a binary file is built
int LmProbe(const std::string& path, int method, const std::vector<SV>& sents, const std::string& out);
struct CrashW : Workload { Job b; std::vector<SV> sents; std::string want; uint64_t io = 0, accesses = 0; Violation pre; std::string Describe() { return b.what; } };
struct BinaryCrashProp : Prop {
  const char* Name() { return "lm-binary-crash-safe"; }
  static Outcome Probe(const CrashW& w, const std::string& image, uint64_t user, std::string* got) {
    std::string dir = g_env.scratch, out = dir + "/answers"; unlink(out.c_str()); Plan p = Plain(); p.seed = user + 1; Rng r(user); if (r.chance(0.5)) RandomBenignIo(r, p); SetCrash(CrashPlan());
    p.scratch = dir; p.stdin_path = dir + "/empty"; p.stdout_path = dir + "/stdout"; p.stderr_path = dir + "/stderr"; int method = r.below(4);
    Outcome o = Run(p, [&] { return LmProbe(image, method, w.sents, out); }); *got = Exists(out) ? ReadFile(out) : ""; return o;
  }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<CrashW>(new CrashW); SV words; Arpa a; std::string arpa;
    int nv = r.chance(0.3) ? r.range(60, 400) : r.range(2, 30);      // the word list may take several pages
    words = LmVocab(r, nv); if (r.chance(0.3)) for (auto& x : words) x += std::string(r.below(40), 'x');
    do { arpa = GenArpa(r, words, r.range(2, 4), r.chance(0.8)); a = ParseArpa(arpa); } while (a.order < 2);
    bool quant, exact; BuildArgs(r, w->b, "model.arpa", "model.bin", quant, exact); w->b.files["model.arpa"] = arpa; JobPrepare(w->b, g_env.scratch);
    for (int i = 0; i < 6; ++i) { SV s; for (int k = r.range(1, 8); k > 0; --k) s.push_back(r.chance(0.07) ? "zzz" : words[r.below(words.size())]); s.push_back("</s>"); w->sents.push_back(s); }
    // every n-gram of the model is asked for
    for (auto& kv : a.g[a.order]) w->sents.push_back(kv.first); if (w->sents.size() > 400) w->sents.resize(400);
    SetCrash(CrashPlan()); Plan p = Plain(); Outcome o = JobRun(w->b, p, g_env.scratch, 0, nullptr); w->io = o.ops[OP_ANY_IO]; w->accesses = o.accesses;
    if (!o.ok_exit()) { w->pre = {"build-failed", w->b.what + " ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)}; return w; }
    Outcome q = Probe(*w, g_env.scratch + "/model.bin", seed, &w->want); if (!q.ok_exit()) w->pre = {"complete-model-refused", w->b.what + ": " + dsim::Describe(q) + " " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)};
    return w;
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) {
    CrashW& w = (CrashW&)ww; if (w.pre.bad()) { p = Plain(); return k == 0; } if (k >= 14) return false;
    p = Plain(); p.seed = r.next(); p.heap_seed = r.chance(0.5) ? 0 : r.next() | 1; if (r.chance(0.3)) RandomBenignIo(r, p);
    p.record_storage = true; p.crash_on = true; p.crash_io = r.chance(0.5) ? 1 + r.below(w.io + 2) : w.io + 2 - std::min<uint64_t>(w.io + 1, r.below(16)); if (r.chance(0.25)) { p.crash_io = 0; p.crash_access = w.accesses - std::min<uint64_t>(w.accesses - 1, r.chance(0.5) ? r.below(2000) : r.below(w.accesses)); } p.crash_writeback = r.chance(0.3) ? 0 : r.unit() * 0.5; p.user = (int64_t)(r.next() >> 1); return true;
  }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    CrashW& w = (CrashW&)ww; std::string image = g_env.scratch + "/model.bin.crash", got; if (w.pre.bad()) { o = JobRun(w.b, p, g_env.scratch, 0, nullptr); return w.pre; }
    o = JobRun(w.b, p, g_env.scratch, 0, nullptr); Violation v = Universal(o, true); if (v.bad()) return v;
    if (o.kind != OUT_CRASHED && !o.ok_exit()) return {"build-failed", w.b.what + " ended with " + dsim::Describe(o)};
    if (!Exists(image)) { g_env.Reach("no_file"); return v; }
    g_env.Reach(o.kind == OUT_CRASHED ? "cut_during_the_build" : "cut_after_the_build");
    Outcome q = Probe(w, image, p.user, &got);
    if (q.kind == OUT_EXIT && q.code == 1) { g_env.Reach("refused"); return v; }
    std::string where = w.b.what + ", power loss at " + (p.crash_io ? "I/O operation " + N(p.crash_io) + " of " + N(w.io) : "memory access " + N(p.crash_access) + " of " + N(w.accesses)) + ": ";
    if (!q.ok_exit()) return {"load-fails-badly", where + "loading what is left ends with " + dsim::Describe(q)};
    if (got != w.want) return {"incomplete-model-accepted", where + "the file is loaded but answers differ: " + FirstDiff(w.want, got)};
    g_env.Reach("complete"); return v;
  }
};
static Reg r3(new BinaryCrashProp);
