// Tuning: the weights that batch-tune reports against an independent evaluation of the n-best lists or forests they were tuned on.
#include "jobs.h"
#include "lmref.h"
#include "evalref.h"
#include <float.h>
#include <array>
#include <functional>
using namespace dsim;
int batch_tune_main(int, char**);
namespace {
typedef std::map<std::string, double> Feat;
struct Hyp { Feat f; std::vector<SV> w; Stats st; };
struct MertW : Workload {
  Job j, stat; Spec m; Facts facts; std::vector<std::vector<Hyp>> s; std::set<std::string> feats; Feat init; double threshold = 1e-6, lo = -DBL_MAX, hi = DBL_MAX; std::map<std::string, std::pair<double, double>> range;
  bool ambiguous = false, unk = false, coord = false, greedy = false, forest = false, usable = true, numbers = false, average = false; size_t lines = 0; Violation pre; JobResult first; bool have = false; std::string Describe() { return j.what; }
};
bool Has(const Spec& s, const char* kind) { if (s.kind == kind) return true; for (auto& x : s.sub) if (Has(x, kind)) return true; return false; }
bool NoPrecision(const Spec& s) { if (s.kind == "bleu" && s.prec == 0) return true; for (auto& x : s.sub) if (NoPrecision(x)) return true; return false; }
bool Smoothed(const Spec& s) { if (s.kind == "bleu" && s.smooth != 0 && !s.sentence) return true; for (auto& x : s.sub) if (Smoothed(x)) return true; return false; }
bool Averages(const Spec& s) { if (s.kind == "interp") { for (auto& x : s.sub) if (!Averages(x)) return false; return true; } return s.sentence || s.kind == "ribes" || s.kind == "zeroone"; }
double Dot(const Feat& a, const Feat& b, double* mag) { double d = 0; for (auto& x : a) { auto it = b.find(x.first); if (it != b.end()) { d += x.second * it->second; *mag += std::fabs(x.second * it->second); } } return d; }
bool SameStats(const Stats& a, const Stats& b) { if (a.v != b.v || a.sub.size() != b.sub.size()) return false; for (size_t i = 0; i < a.sub.size(); ++i) if (!SameStats(a.sub[i], b.sub[i])) return false; return true; }
// score of the best hypotheses under v + t * s; nan if rounding could decide which they are
double At(const MertW& w, const std::vector<std::vector<std::array<double, 4>>>& l, double t) {
  Stats sum;
  for (size_t i = 0; i < w.s.size(); ++i) {
    if (w.s[i].empty()) continue; size_t b = 0; double best = -HUGE_VAL, slack = 0;
    for (size_t h = 0; h < l[i].size(); ++h) { double v = l[i][h][0] + t * l[i][h][1]; slack = std::max(slack, l[i][h][2] + std::fabs(t) * l[i][h][3]); if (v > best) best = v, b = h; }
    slack = slack * 1e-4 + 1e-9;
    for (size_t h = 0; h < l[i].size(); ++h) if (h != b && l[i][h][0] + t * l[i][h][1] > best - slack && !SameStats(w.s[i][h].st, w.s[i][b].st)) return Undef();
    Add(sum, w.s[i][b].st);
  }
  return sum.set ? Score(w.m, sum) : Undef();
}
std::vector<std::vector<std::array<double, 4>>> Along(const MertW& w, const Feat& at, const Feat& dir) {
  std::vector<std::vector<std::array<double, 4>>> l(w.s.size());
  for (size_t i = 0; i < w.s.size(); ++i) for (auto& h : w.s[i]) { double m = 0, n = 0, v = Dot(h.f, at, &m), s = Dot(h.f, dir, &n); l[i].push_back({v, s, m, n}); }
  return l;
}
double True(const MertW& w, const Feat& at) { return At(w, Along(w, at, Feat()), 0); }
bool ParseWeights(const std::string& t, Feat* f) { for (auto& x : Split(t, " ")) { size_t e = x.rfind('='); if (e == std::string::npos || e == 0) return false; char* q; double v = strtod(x.c_str() + e + 1, &q); if (*q || f->count(x.substr(0, e))) return false; (*f)[x.substr(0, e)] = v; } return true; }
std::string Num(double d) { char b[40]; snprintf(b, sizeof b, "%g", d); return b; }
std::string Print(const Feat& f) { std::string t; for (auto& x : f) t += (t.empty() ? "" : " ") + x.first + "=" + Num(x.second); return t; }
// "" or a point on the line through "at" along one feature that is better than score by more than the threshold
std::string Better(const MertW& w, const Feat& at, double score, bool ranges, Feat* where) {
  for (auto& f : w.feats) {
    double lo = -DBL_MAX, hi = DBL_MAX;
    if (ranges) { auto it = w.range.find(f); lo = it == w.range.end() ? w.lo : it->second.first; hi = it == w.range.end() ? w.hi : it->second.second; double c = at.count(f) ? at.at(f) : 0; lo = lo == -DBL_MAX ? lo : lo - c; hi = hi == DBL_MAX ? hi : hi - c; if (lo > hi) continue; }
    Feat dir; dir[f] = 1; auto l = Along(w, at, dir); std::vector<double> cut;
    for (auto& s : l) {                            // upper envelope from the left
      size_t n = s.size(); if (!n) continue; size_t c = 0; for (size_t h = 1; h < n; ++h) if (s[h][1] < s[c][1] || (s[h][1] == s[c][1] && s[h][0] > s[c][0])) c = h;
      for (;;) { double t = HUGE_VAL; size_t b = n; for (size_t h = 0; h < n; ++h) if (s[h][1] > s[c][1]) { double x = (s[c][0] - s[h][0]) / (s[h][1] - s[c][1]); if (x < t || (x == t && s[h][1] > s[b][1])) t = x, b = h; } if (b == n) break; cut.push_back(t); c = b; }
    }
    std::sort(cut.begin(), cut.end()); std::vector<double> mid; if (cut.empty()) mid.push_back(0); else { mid.push_back(cut[0] - 1); mid.push_back(cut.back() + 1); for (size_t i = 0; i + 1 < cut.size(); ++i) { if (cut[i + 1] - cut[i] < 2e-3 * (1 + std::fabs(cut[i]))) continue; mid.push_back((cut[i] + cut[i + 1]) / 2); } }
    for (double t : mid) { double margin = 1e-3 * (1 + std::fabs(t)); if (lo != -DBL_MAX && t < lo + margin) continue; if (hi != DBL_MAX && t > hi - margin) continue;
      double y = At(w, l, t); if (std::isnan(y) || std::isinf(y)) continue;
      if (y > score + w.threshold + 2e-4 * std::max(1.0, std::fabs(y))) { *where = at; (*where)[f] += t; return f; } }
  }
  return "";
}
// ---- forests
struct Edge { std::vector<int> tails; std::vector<SV> trg; Feat f; }; struct Node { int l, r; std::vector<Edge> e; };
std::string Quote(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
bool Ref(const std::string& w) { return w.size() > 1 && w[0] == '\x01'; }
struct Forest {
  std::vector<Node> n; SV src;
  std::string Json() const {
    std::string nodes, edges, words; int id = 0;
    for (size_t i = 0; i < n.size(); ++i) { nodes += (i ? ", " : "") + std::string("{\"id\": ") + N(i) + ", \"sym\": \"N" + N(i % 3) + "\", \"span\": [" + N(n[i].l) + ", " + N(n[i].r) + "]}";
      for (auto& e : n[i].e) { edges += (id ? ", " : "") + std::string("{\"id\": ") + N(id) + ", \"head\": " + N(i); ++id;
        if (!e.tails.empty()) { edges += ", \"tails\": ["; for (size_t k = 0; k < e.tails.size(); ++k) edges += (k ? ", " : "") + N(e.tails[k]); edges += "]"; }
        if (!e.f.empty()) { edges += ", \"features\": {"; bool c = false; for (auto& x : e.f) { edges += (c ? ", " : "") + Quote(x.first) + ": " + Num(x.second); c = true; } edges += "}"; }
        edges += ", \"trg\": ["; for (size_t k = 0; k < e.trg.size(); ++k) { edges += (k ? ", " : "") + std::string("{\"words\": ["); for (size_t q = 0; q < e.trg[k].size(); ++q) { auto& x = e.trg[k][q]; edges += (q ? ", " : "") + (Ref(x) ? "-" + x.substr(1) : Quote(x)); } edges += "]}"; } edges += "]}"; } }
    for (auto& x : src) words += (words.empty() ? "" : ", ") + Quote(x);
    return "{\"nodes\": [" + nodes + "], \"edges\": [" + edges + "], \"words\": [" + words + "]}";
  }
  bool All(int id, std::vector<Hyp>* out, std::vector<std::vector<Hyp>>& memo, std::vector<char>& done, size_t cap) const {
    if (done[id]) { *out = memo[id]; return true; } std::vector<Hyp> r;
    for (auto& e : n[id].e) {
      std::vector<std::vector<Hyp>> c(e.tails.size()); for (size_t k = 0; k < c.size(); ++k) if (!All(e.tails[k], &c[k], memo, done, cap)) return false;
      std::vector<size_t> at(c.size(), 0); bool more = true; for (auto& x : c) if (x.empty()) more = false;
      while (more) {
        Hyp h; h.f = e.f; for (size_t k = 0; k < c.size(); ++k) for (auto& x : c[k][at[k]].f) h.f[x.first] += x.second;
        for (size_t q = 0; q < e.trg.size(); ++q) { SV o; for (auto& x : e.trg[q]) if (Ref(x)) { auto& y = c[atoi(x.c_str() + 1) - 1][at[atoi(x.c_str() + 1) - 1]].w[q]; o.insert(o.end(), y.begin(), y.end()); } else if (x == "<unk>") o.push_back(src[n[id].l]); else o.push_back(x); h.w.push_back(o); }
        r.push_back(h); if (r.size() > cap) return false;
        size_t k = 0; while (k < c.size() && ++at[k] == c[k].size()) at[k++] = 0; more = k < c.size();
      }
    }
    memo[id] = r; done[id] = 1; *out = r; return true;
  }
  bool Hyps(std::vector<Hyp>* out, size_t cap) const { std::vector<std::vector<Hyp>> memo(n.size()); std::vector<char> done(n.size(), 0); return All(0, out, memo, done, cap); }
};
struct MertProp : Prop {
  const char* Name() { return "tuned-weights-honest"; }
  static double Value(Rng& r, bool coarse) { return coarse ? r.range(-6, 6) * 0.5 : r.range(-4000, 4000) / 1000.0; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<MertW>(new MertW); MertW& f = *w; Job& j = f.j; j.tool = "batch-tune"; j.fn = batch_tune_main; j.threads_arg = "-threads";
    int factors = r.chance(0.12) ? 2 : 1, ns = r.range(1, 5), nf = r.range(1, 5); bool coarse = r.chance(0.25); f.forest = r.chance(0.4);
    SV v; for (int i = r.range(3, 10); i > 0; --i) v.push_back("t" + N(i)); f.numbers = r.chance(0.25); if (f.numbers) { v.push_back("3"); v.push_back("17"); v.push_back("2.5"); } if (r.chance(0.15)) { v.push_back("a\"b"); v.push_back("\\"); v.push_back("{"); } if (r.chance(0.04)) v.push_back("-1");
    if (v.back() == "-1") f.numbers = true;
    std::vector<std::vector<SV>> refs; std::string t;
    for (int i = 0; i < ns; ++i) { std::vector<SV> x; for (int k = 0; k < factors; ++k) { SV s; for (int n = r.range(1, 8); n > 0; --n) s.push_back(v[r.below(v.size())]); x.push_back(s); t += (k ? " |COL| " : "") + Join(s); } refs.push_back(x); t += "\n"; }
    j.files["ref"] = t;
    do f.m = RandSpec(r, factors, 0, true); while (NoPrecision(f.m) || Has(f.m, "nist") || Has(f.m, "ter") || f.m.query.find('/') != std::string::npos || (f.forest && Smoothed(f.m)));
    f.facts = Learn(f.m, refs); f.average = Averages(f.m);
    for (int i = 0; i < nf; ++i) f.feats.insert("f" + N(i)); SV fn(f.feats.begin(), f.feats.end()); std::set<std::string> used; if (r.chance(0.2)) fn.push_back("lex=a");
    f.s.resize(ns); int files = r.chance(0.25) ? 2 : 1; std::string list;
    for (int k = 0; k < files; ++k) {
      std::string o, name = (f.forest ? "forest" : "nbest") + N(k);
      for (int i = 0; i < ns; ++i) {
        if (f.forest) {
          Forest g; std::vector<Hyp> h; do { g = Forest(); if (k ? r.chance(0.03) : r.chance(0.03)) { h.clear(); Hyp e; e.w.assign(factors, SV()); h.push_back(e); break; } Build(r, g, refs[i], v, fn, factors, coarse, k ? f.s[i].size() : 0, i); } while (!g.Hyps(&h, 250)); o += g.Json() + "\n"; for (auto& nd : g.n) for (auto& e : nd.e) for (auto& t : e.trg) { if (std::count(t.begin(), t.end(), "-1")) f.ambiguous = true; if (std::count(t.begin(), t.end(), "<unk>")) f.unk = true; };
          f.s[i].insert(f.s[i].end(), h.begin(), h.end());
        } else {
          int n = r.chance(0.05) && (k || ns > 1) && i ? 0 : r.range(1, r.chance(0.2) ? 15 : 6);
          for (int q = 0; q < n; ++q) {
            Hyp h; std::string text; double sum = 0;
            for (int c = 0; c < factors; ++c) { SV s; for (auto& x : refs[i][c]) { if (r.chance(0.2)) continue; s.push_back(r.chance(0.2) ? v[r.below(v.size())] : x); } if (s.size() > 1 && r.chance(0.3)) std::swap(s[0], s.back()); if (s.empty()) s.push_back(v[0]); h.w.push_back(s); text += (c ? " |COL| " : "") + Join(s); }
            for (auto& x : fn) if (r.chance(0.85)) { double d = Value(r, coarse); if (d != 0 || r.chance(0.3)) h.f[x] = d; sum += d; } if (h.f.empty()) h.f[fn[0]] = 1;
            o += N(i) + " ||| " + text + " ||| " + Num(sum) + " ||| " + Print(h.f) + "\n"; f.s[i].push_back(h); ++f.lines; if (r.chance(0.1)) { o += N(i) + " ||| " + text + " ||| 0 ||| " + Print(h.f) + "\n"; f.s[i].push_back(h); ++f.lines; }
          }
        }
      }
      j.files[name] = o; list += (k ? ",@/" : "@/") + name;
    }
    f.feats.clear(); for (auto& s : f.s) for (auto& h : s) { for (auto& x : h.f) f.feats.insert(x.first); h.st = Measure(f.m, f.facts, refs[&s - &f.s[0]], h.w); }
    auto add = [&](const std::string& o, const std::string& x) { j.args.push_back("-" + o); j.args.push_back(x); };
    j.args.push_back("@/ref"); add(f.forest ? "forest" : "nbest", list); add("eval", f.m.text); if (factors > 1) add("trg_factors", "2");
    f.greedy = r.chance(0.25); add("algorithm", f.greedy ? "greedy-mert" : "mert"); add("rand_seed", N(r.range(1, 1000))); add("restarts", N(r.range(0, 3)));
    if (!f.greedy) { static const char* d[] = {"coord", "coord rand=2", "rand=3", "coord xeval=0.1:10:10"}; int k = r.chance(0.55) ? 0 : r.below(f.forest || f.m.kind != "bleu" || f.m.sentence || f.m.factor || f.m.inverse ? 3 : 4); f.coord = k != 2; if (k || r.chance(0.5)) add("mert_directions", d[k]); }
    if (r.chance(0.3)) { f.threshold = r.chance(0.5) ? 0.01 : 1e-4; add("threshold", Num(f.threshold)); }
    if (f.greedy && r.chance(0.5)) {
      std::string x; bool first = true; auto one = [&](double* a, double* b) { int p = r.range(-2, 1), q = p + r.range(1, 3); if (first && p < 0) p = r.range(0, 1), q = p + r.range(1, 3); first = false; *a = r.chance(0.2) ? -DBL_MAX : p; *b = r.chance(0.2) ? DBL_MAX : q; return (*a == -DBL_MAX ? std::string() : N(p)) + "|" + (*b == DBL_MAX ? std::string() : N(q)); };
      if (r.chance(0.7)) x = one(&f.lo, &f.hi); for (auto& n : fn) if (n.find('=') == std::string::npos && r.chance(0.3)) { double a, b; std::string y = one(&a, &b); x += (x.empty() ? "" : " ") + y + "|" + n; f.range[n] = {a, b}; } if (!x.empty()) add("weight_ranges", x); g_env.Reach("ranges");
    }
    if (r.chance(0.75)) { std::string x; for (auto& n : fn) if (r.chance(0.85)) f.init[n] = Value(r, coarse) / 4; for (auto& e : f.init) x += (x.empty() ? "" : r.chance(0.5) ? "\n" : " ") + e.first + "=" + Num(e.second); j.files["weights"] = x + "\n"; add("weight_in", "@/weights"); }
    if (!f.forest && files == 1 && r.chance(0.25) && !Has(f.m, "zeroone")) { f.stat = j; f.stat.args = {"@/ref", "-nbest", "@/nbest0", "-eval", f.m.text, "-stat_out", "@/stats"}; if (factors > 1) { f.stat.args.push_back("-trg_factors"); f.stat.args.push_back("2"); } f.stat.outputs = {"stats"}; f.stat.threads_arg = ""; add("stat_in", "@/stats"); g_env.Reach("statistics_files"); }
    add("debug", "1"); j.what = "batch-tune " + Join(j.args); bool any = false; for (auto& s : f.s) if (!s.empty()) any = true; f.usable = any && !f.feats.empty();
    JobPrepare(j, g_env.scratch); g_env.Reach(f.greedy ? "greedy" : f.coord ? "coordinates" : "random_directions"); g_env.Reach(f.forest ? "forests" : "nbests"); g_env.Reach(f.m.kind); if (factors > 1) g_env.Reach("factors");
    return std::unique_ptr<Workload>(w.release());
  }
  static void Build(Rng& r, Forest& g, const std::vector<SV>& ref, const SV& v, const SV& fn, int factors, bool coarse, size_t, int seed) {
    Rng q(seed * 7 + 1); for (int i = q.range(1, 3); i >= 0; --i) g.src.push_back(q.chance(0.2) ? "t1" : "s" + N(q.below(9))); int L = g.src.size(); g.src.resize(L);
    // one node per span that is used; spans are split in up to two ways, and their parts are shared
    std::map<std::pair<int, int>, int> id; bool unks = r.chance(0.03);
    std::function<int(int, int)> node = [&](int l, int h) -> int {
      auto it = id.find({l, h}); if (it != id.end()) return it->second; int me = id[{l, h}] = g.n.size(); g.n.push_back({l, h, {}}); int ne = r.range(1, 3);
      auto feats = [&](Edge& e) { for (auto& x : fn) if (r.chance(0.4)) { double d = Value(r, coarse); if (d != 0) e.f[x] = d; } };
      auto words = [&](SV& o, int n, int c) { for (; n > 0; --n) { const SV& s = ref[c]; o.push_back(r.chance(0.6) ? s[std::min<size_t>(s.size() - 1, r.below(2) ? l : r.below(s.size()))] : v[r.below(v.size())]); } };
      for (int k = 0; k < ne; ++k) {
        Edge e; feats(e); bool leaf = h - l == 1 || r.chance(0.25);
        if (!leaf) { int m = l + 1 + r.below(h - l - 1); e.tails.push_back(node(l, m)); e.tails.push_back(node(m, h)); if (r.chance(0.06)) std::swap(e.tails[0], e.tails[1]); }
        else if (h - l == 1 && r.chance(0.2)) { }
        bool unk = leaf && h - l == 1 && unks && r.chance(0.5);
        for (int c = 0; c < factors; ++c) { SV o; if (unk) o.push_back("<unk>"); else { words(o, leaf ? r.range(r.chance(0.1) ? 0 : 1, 2) : r.chance(0.3), c); if (!leaf) { bool sw = r.chance(0.3); if (!r.chance(0.05)) o.push_back(sw ? "\x01" "2" : "\x01" "1"); if (r.chance(0.15)) words(o, 1, c); o.push_back(sw ? "\x01" "1" : "\x01" "2"); if (r.chance(0.04)) o.push_back("\x01" "1"); if (r.chance(0.15)) words(o, 1, c); } } e.trg.push_back(o); }
        g.n[me].e.push_back(e);
      }
      return me;
    };
    node(0, L);
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { MertW& w = (MertW&)ww; if (!w.usable) return false; if (k >= 4) return false; if (k == 0) p = Plain(); else { RandomSchedule(r, p); RandomBenignIo(r, p); p.heap_seed = r.next() | 1; } p.user = k == 0 ? 1 : k == 1 ? r.range(2, 5) : 1; p.step_limit = 20000000; return true; }
  // one line "<weights> => <score>"
  static std::string Judge(const MertW& w, const Feat& at, double score, const std::string& who) {
    double y = True(w, at), tol = 2e-4 * std::max(1.0, std::fabs(score)); if (!std::isnan(y) && !std::isinf(y)) { g_env.Reach("scores_compared"); double off = std::fabs(y - score); if (off > tol && !(score == 0 && y <= w.threshold + tol && !w.greedy)) return who + " reports " + Num(score) + " for " + Print(at) + ", whose score is " + Num(y); }
    if (!w.greedy) { double sum = 0; for (auto& x : at) sum += std::fabs(x.second); if (sum != 0 && std::fabs(sum - 1) > 1e-4) return who + " reports weights that add up to " + Num(sum); }
    if (w.greedy) for (auto& x : at) { auto it = w.range.find(x.first); double lo = it == w.range.end() ? w.lo : it->second.first, hi = it == w.range.end() ? w.hi : it->second.second; auto in = w.init.find(x.first); double c = in == w.init.end() ? 0 : in->second; (void)c; if ((x.second < lo - 1e-5 || x.second > hi + 1e-5) && std::fabs(x.second - c) > 1e-5 && who.compare(0, 4, "Rand") && who.compare(0, 4, "Best") && who != "the program") return who + " reports " + x.first + "=" + Num(x.second) + " outside of its range"; }
    Feat better; std::string f; if (w.greedy ? w.average && !w.forest && !std::isnan(y) : w.coord) { f = Better(w, at, score, w.greedy, &better); g_env.Reach("optimality_checked"); }
    if (!f.empty()) return who + " ends with " + Print(at) + " and a score of " + Num(score) + ", but changing " + f + " alone gives " + Print(better) + " and a score of " + Num(True(w, better));
    return "";
  }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    Violation v = Examine(ww, p, o); if (v.bad() && ((MertW&)ww).ambiguous) v.kind = "number-read-as-variable"; else if (v.bad() && ((MertW&)ww).unk) v.kind = "unk-not-replaced"; return v;
  }
  Violation Examine(Workload& ww, const Plan& p, Outcome& o) {
    MertW& w = (MertW&)ww; JobResult got; Job j = w.j;
    if (!w.stat.args.empty()) {
      o = JobRun(w.stat, p, g_env.scratch, 0, &got); Violation v = Universal(o, true); if (v.bad()) return v;
      if (!o.ok_exit()) return {"tuning-failed", "batch-tune " + Join(w.stat.args) + " ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 300)};
      if (Lines(got.out["stats"]).size() != w.lines) return {"wrong-statistics", N(Lines(got.out["stats"]).size()) + " lines of statistics for " + N(w.lines) + " translations"};
      WriteFile(g_env.scratch + "/stats", got.out["stats"]); j.files["stats"] = "";
    }
    o = JobRun(j, p, g_env.scratch, (int)p.user, &got); Violation v = Universal(o, true); if (v.bad()) return v; std::string err = ReadFile(g_env.scratch + "/stderr");
    if (!o.ok_exit()) return {"tuning-failed", w.j.what + " ended with " + dsim::Describe(o) + ": " + Clip(err, 300)};
    if (!w.have) { w.have = true; w.first = got; } else if (!(w.first == got)) return {"weights-differ", w.j.what + ": " + Diff(w.first, got)};
    SV out = Lines(got.out["standard output"]); Feat best; if (out.size() != 1 || !ParseWeights(out[0], &best)) return {"bad-output", "standard output is <" + Clip(got.out["standard output"], 200) + ">"};
    double score = Undef(), top = -HUGE_VAL, init = Undef(); std::string bl; bool own = false;
    for (auto& l : Lines(err)) {
      size_t e = l.find(" => "), c = l.find(": "); if (e == std::string::npos || c == std::string::npos || c > e) continue; std::string who = l.substr(0, c); Feat at; if (who != "Init" && who != "Zero" && who != "Best" && who.compare(0, 5, "Rand ")) continue;
      if (who != "Best" && p.user > 1) continue;      // the lines of several threads may be mixed
      if (!ParseWeights(l.substr(c + 2, e - c - 2), &at)) return {"bad-output", "cannot understand <" + Clip(l, 200) + ">"}; double y = atof(l.c_str() + e + 4);
      if (who == "Best") { score = y; if (l.substr(c + 2, e - c - 2) != out[0]) return {"wrong-weights", "the best weights are " + l.substr(c + 2, e - c - 2) + ", standard output has " + out[0]}; } else { top = std::max(top, y); if (l.substr(c + 2, e - c - 2) == out[0]) own = true; if (who == "Init") init = y; }
      if (p.user > 1 || who != "Best") { std::string d = Judge(w, at, y, who); if (!d.empty()) return {"wrong-score", w.j.what + ": " + d}; }
    }
    if (std::isnan(score)) return {"bad-output", "no line with the best weights: " + Clip(err, 200)};
    if (p.user <= 1) { if (std::fabs(score - top) > 1e-5 * std::max(1.0, std::fabs(top))) return {"not-the-best", w.j.what + ": the best run has a score of " + Num(top) + ", " + Num(score) + " is reported"}; if (!own) return {"not-the-best", w.j.what + ": the weights of standard output are those of no run"}; }
    double before = True(w, w.init); (void)init; if (!std::isnan(before) && !std::isinf(before) && score < before - 2e-4 * std::max(1.0, std::fabs(before)) - w.threshold) return {"worse-than-before", w.j.what + ": the initial weights have a score of " + Num(before) + ", the tuned ones " + Num(score)};
    return v;
  }
};
Reg r(new MertProp);
}
