// The language model filter against a reference filter written from its documentation.
#include "jobs.h"
#include "lmref.h"
#include <algorithm>
using namespace dsim;
int filter_main(int, char**);
namespace {
struct FilterW : Workload {
  Job j; bool usable = false; int mode = 0; bool phrase = false, context = false, raw = false;
  std::vector<std::vector<SV>> sents;                  // sentence -> phrases (or one list of words)
  std::vector<std::vector<std::string>> want;          // per output: the lines it has to hold, section headers in between
  std::vector<std::vector<long>> counts;
  std::string Describe() { return j.what; }
};
bool Tag(const std::string& w) { return w[0] == '<' && w.back() == '>'; }
bool Piece(const SV& g, size_t a, size_t b, const SV& p, size_t at) { if (at + (b - a) > p.size()) return false; for (size_t i = a; i < b; ++i) if (g[i] != p[at + i - a]) return false; return true; }
bool Passes(const FilterW& f, SV g, int s) {
  if (f.context) g.pop_back();
  if (!f.phrase) {
    SV w; for (auto& x : g) if (!Tag(x)) w.push_back(x);
    for (auto& x : w) { bool in = false; for (int k = 0; k < (int)f.sents.size() && !in; ++k) if (f.mode == 1 || k == s) for (auto& p : f.sents[k]) if (std::find(p.begin(), p.end(), x) != p.end()) in = true; if (!in) return false; }
    return true;
  }
  if (!g.empty() && Tag(g[0])) g.erase(g.begin());
  for (size_t i = 0; i < g.size(); ++i) if (g[i] == "</s>") { g.resize(i); break; }
  if (g.empty()) return true;
  size_t n = g.size(); auto& ps = f.sents[s];
  for (auto& p : ps) for (size_t at = 0; at + n <= p.size(); ++at) if (Piece(g, 0, n, p, at)) return true;      // inside one phrase
  std::vector<bool> ok(n + 1, false);                                                                            // ok[i]: g[0,i) are pieces ending at a phrase's end
  for (size_t i = 1; i < n; ++i) {
    for (auto& p : ps) {
      if (i <= p.size() && Piece(g, 0, i, p, p.size() - i)) ok[i] = true;
      if (i >= p.size() && ok[i - p.size()] && Piece(g, i - p.size(), i, p, 0)) ok[i] = true;
    }
    if (ok[i]) for (auto& p : ps) if (n - i <= p.size() && Piece(g, i, n, p, 0)) return true;
  }
  return false;
}
SV RandSent(Rng& r, const SV& v, int lo, int hi) { SV s; for (int i = r.range(lo, hi); i > 0; --i) s.push_back(v[r.below(v.size())]); return s; }
struct FilterProp : Prop {
  const char* Name() { return "lm-filter-exact"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<FilterW>(new FilterW); FilterW& f = *w; Job& j = f.j;
    SV words; for (int i = r.range(2, 12); i > 0; --i) words.push_back("c" + N(i)); if (r.chance(0.3)) words.push_back("<x>"); if (r.chance(0.3)) words.push_back("<a"); words.push_back(r.chance(0.5) ? "w>" : "z");
    j.tool = "filter"; j.fn = filter_main; static const char* md[] = {"copy", "single", "multiple", "union"}; f.mode = r.chance(0.1) ? 0 : r.chance(0.2) ? 1 : r.range(2, 3);
    f.phrase = f.mode >= 2 && r.chance(0.6); f.context = f.mode && r.chance(0.3); f.raw = r.chance(0.35);
    j.args.push_back(md[f.mode]); if (f.phrase) j.args.push_back("phrase"); if (f.context) j.args.push_back("context"); if (f.raw) j.args.push_back("raw"); else if (r.chance(0.3)) j.args.push_back("arpa");
    if (f.mode) { j.args.push_back("threads:" + N(r.range(1, g_env.tier ? 6 : 4))); j.args.push_back("batch_size:" + N(r.chance(0.2) ? r.range(20, 200) : r.range(1, 12))); }
    // the vocabulary
    int ns = r.range(1, r.chance(0.2) ? 30 : 5); SV small = words; while (small.size() > 2 && r.chance(0.3)) small.erase(small.begin() + r.below(small.size())); small.push_back("other"); std::string voc;
    for (int i = 0; i < ns; ++i) {
      std::vector<SV> ph; int np = f.phrase ? r.range(1, 6) : 1; std::string l;
      for (int q = 0; q < np; ++q) { ph.push_back(RandSent(r, small, 1, f.phrase ? 4 : 8)); l += (q ? (r.chance(0.1) ? "\t\t" : "\t") : "") + Join(ph.back()); }
      if (r.chance(0.1)) l += " "; if (r.chance(0.05)) voc += "\n"; voc += l; if (i + 1 < ns || r.chance(0.8)) voc += "\n"; f.sents.push_back(ph);
    }
    if (r.chance(0.02)) { voc = "\n"; f.sents.clear(); }
    j.files["vocab"] = voc;
    // the model
    std::vector<std::vector<std::pair<SV, std::string>>> sec; size_t total = 0;
    if (f.raw) {
      sec.resize(1); std::string t; int n = r.range(0, r.chance(0.2) ? 300 : 40);
      for (int i = 0; i < n; ++i) { if (r.chance(0.03)) { t += "\n"; continue; } SV g = RandSent(r, words, 1, 5); if (r.chance(0.2)) g[0] = "<s>"; if (r.chance(0.2)) g.back() = "</s>"; std::string l = Join(g); if (!r.chance(0.1)) l += "\t" + N(r.below(99)) + (r.chance(0.1) ? "\tmore text" : ""); sec[0].push_back({g, l}); t += l + "\n"; }
      if (!t.empty() && t[t.size() - 1] == '\n' && t.size() > 1 && t[t.size() - 2] != '\n' && r.chance(0.2)) t.pop_back();
      j.files["model"] = t; if (!n) f.usable = false;
    } else {
      int order = r.range(1, 5); std::string t = "\\data\\\n", body; sec.resize(order);
      for (int n = 1; n <= order; ++n) { std::set<SV> seen;
        if (n == 1) { SV all = words; all.push_back("<s>"); all.push_back("</s>"); if (r.chance(0.7)) all.push_back("<unk>"); for (auto& x : all) seen.insert({x}); }
        else for (int k = r.range(1, r.chance(0.2) ? 120 : 15); k > 0; --k) { SV g = RandSent(r, words, n, n); if (r.chance(0.2)) g[0] = r.chance(0.8) ? "<s>" : "<unk>"; if (r.chance(0.2)) g.back() = "</s>"; else if (r.chance(0.05)) g[r.below(n)] = "<unk>"; seen.insert(g); }
        std::vector<SV> gs(seen.begin(), seen.end()); for (size_t i = gs.size(); i > 1; --i) std::swap(gs[i - 1], gs[r.below(i)]);
        body += "\n\\" + N(n) + "-grams:\n"; t += "ngram " + N(n) + "=" + N(gs.size()) + "\n";
        for (auto& g : gs) { std::string l = std::string("-") + N(r.below(9)) + "." + N(r.below(9999)) + "\t" + Join(g); if (n < order) l += std::string("\t-0.") + N(r.below(99)); sec[n - 1].push_back({g, l}); body += l + "\n"; } }
      j.files["model"] = t + body + "\n\\end\\\n";
    }
    for (auto& s : sec) total += s.size();
    int outs = f.mode == 2 ? (int)f.sents.size() : 1; f.want.resize(outs); f.counts.resize(outs);
    for (size_t n = 0; n < sec.size(); ++n) for (int o = 0; o < outs; ++o) {
      if (!f.raw) f.want[o].push_back("\\" + N(n + 1) + "-grams:"); long c = 0;
      for (auto& g : sec[n]) { bool pass = !f.mode; if (f.mode == 1 || f.mode == 2) pass = Passes(f, g.first, o); else if (f.mode == 3) { if (f.sents.empty()) pass = Nothing(f, g.first); for (size_t s = 0; s < f.sents.size() && !pass; ++s) pass = Passes(f, g.first, s); } if (pass) { f.want[o].push_back(g.second); ++c; } }
      f.counts[o].push_back(c);
    }
    if (r.chance(0.5)) { j.args.push_back("vocab:@/vocab"); j.stdin_file = "model"; } else { j.args.push_back("model:@/model"); j.stdin_file = "vocab"; }
    j.args.push_back("@/filtered"); for (int i = 0; i < outs; ++i) j.outputs.push_back(f.mode == 2 ? "filtered" + N(i) : "filtered");
    j.what = "filter " + Join(j.args) + " n-grams=" + N(total) + " sentences=" + N(f.sents.size()); f.usable = total > 0;
    JobPrepare(j, g_env.scratch); g_env.Reach(std::string(md[f.mode]) + (f.phrase ? "_phrase" : "") + (f.raw ? "_raw" : "")); if (f.context) g_env.Reach("context");
    return std::unique_ptr<Workload>(w.release());
  }
  static bool Nothing(const FilterW& f, SV g) { if (f.context) g.pop_back(); if (f.phrase) { if (!g.empty() && Tag(g[0])) g.erase(g.begin()); return g.empty() || g[0] == "</s>"; } for (auto& x : g) if (!Tag(x)) return false; return true; }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) {
    FilterW& f = (FilterW&)ww; if (!f.usable || k >= 5) return false; p = Plain(); if (!k) return true;
    RandomSchedule(r, p); p.step_limit = 6000000; if (r.chance(0.4)) RandomBenignIo(r, p); return true;
  }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    FilterW& f = (FilterW&)ww; JobResult got; o = JobRun(f.j, p, g_env.scratch, 0, &got);
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (!o.ok_exit()) return {"filter-failed", "the filter ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    for (size_t i = 0; i < f.want.size(); ++i) {
      SV l; for (auto& x : Lines(got.out[f.j.outputs[i]])) if (!x.empty()) l.push_back(x);
      SV want; if (!f.raw) { want.push_back("\\data\\"); for (size_t n = 0; n < f.counts[i].size(); ++n) want.push_back("ngram " + N(n + 1) + "=" + N(f.counts[i][n])); }
      want.insert(want.end(), f.want[i].begin(), f.want[i].end()); if (!f.raw) want.push_back("\\end\\");
      for (size_t k = 0; k < std::max(l.size(), want.size()); ++k) {
        std::string a = k < want.size() ? want[k] : "(end)", b = k < l.size() ? l[k] : "(end)"; if (a == b) continue;
        std::string ph; if (f.mode == 2) { for (auto& q : f.sents[i]) ph += (ph.empty() ? "" : "|") + Join(q); ph = " for the sentence <" + Clip(ph, 200) + ">"; }
        return {"filter-differs", f.j.outputs[i] + ph + " line " + N(k + 1) + ": <" + Clip(b, 120) + "> instead of <" + Clip(a, 120) + ">"};
      }
    }
    g_env.Reach("judged"); return v;
  }
};
Reg r19(new FilterProp);
}
