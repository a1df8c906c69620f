// The gradient-based and online learners of batch-tune against reference learners that are run on the same n-best lists.
#include "jobs.h"
#include "lmref.h"
#include "evalref.h"
#include <stdlib.h>
#include <random>
using namespace dsim;
int batch_tune_main(int, char**);
namespace {
typedef std::map<std::string, double> Feat;
struct Hyp { Feat f; std::vector<SV> w; Stats st; };
const char* kScale = "__SCALE__";
struct LearnW : Workload {
  Job j; Spec m; Facts facts; std::vector<std::vector<Hyp>> s; std::set<std::string> feats; Feat init; size_t init_lines = 0;
  std::string algo, update = "perceptron"; double l2 = 0, ent = 0, rate = 1, margin = 0; int restarts = 0; unsigned seed = 1; bool dyadic = true, exact_eval = false; JobResult first; bool have = false; std::map<std::string, std::pair<Feat, double>> ref; std::map<std::string, int> known; std::string Describe() { return j.what; }
};
std::string Num(double d) { char b[40]; snprintf(b, sizeof b, "%g", d); return b; }
std::string Print(const Feat& f) { std::string t; for (auto& x : f) t += (t.empty() ? "" : " ") + x.first + "=" + Num(x.second); return t; }
bool ParseWeights(const std::string& t, Feat* f) { for (auto& x : Split(t, " ")) { if (x.empty()) continue; size_t e = x.rfind('='); if (e == std::string::npos || e == 0) return false; char* q; double v = strtod(x.c_str() + e + 1, &q); if (*q || f->count(x.substr(0, e))) return false; (*f)[x.substr(0, e)] = v; } return true; }
double Dot(const Feat& w, const Feat& f, double* mag = nullptr) { double d = 0; for (auto& x : f) { auto it = w.find(x.first); if (it != w.end()) { d += x.second * it->second; if (mag) *mag += std::fabs(x.second * it->second); } } return d; }
bool SameStats(const Stats& a, const Stats& b) { if (a.v != b.v || a.lo != b.lo || a.hi != b.hi || a.sub.size() != b.sub.size()) return false; for (size_t i = 0; i < a.sub.size(); ++i) if (!SameStats(a.sub[i], b.sub[i])) return false; return true; }
void AddTimes(Stats& a, const Stats& b, double p) { if (!a.set) { a = b; for (auto& x : a.v) x = 0; a.lo = a.hi = 0; } for (size_t i = 0; i < a.v.size(); ++i) a.v[i] += p * b.v[i]; a.lo += p * b.lo; a.hi += p * b.hi; }
// ---- expected score
double Objective(const LearnW& w, const Feat& x, double* slack = nullptr, double* ratio = nullptr) {
  auto sc = x.find(kScale); double gamma = sc == x.end() || sc->second == 0 ? 1 : sc->second; Stats sum; double ent = 0, worst = 0;
  for (auto& l : w.s) {
    if (l.empty()) continue; std::vector<double> p; double top = -HUGE_VAL, z = 0; for (auto& h : l) { double m = 0; p.push_back(Dot(x, h.f, &m) * gamma); worst = std::max(worst, m * std::fabs(gamma)); top = std::max(top, p.back()); }
    for (auto& q : p) z += q = std::exp(q - top); for (size_t k = 0; k < p.size(); ++k) { p[k] /= z; AddTimes(sum, l[k].st, p[k]); if (p[k] > 0) ent -= p[k] * std::log2(p[k]); }
  }
  double y = Score(w.m, sum); for (auto& e : x) if (e.first != kScale) y -= w.l2 * e.second * e.second * gamma * gamma; if (slack) *slack = worst * 1e-5; if (ratio) *ratio = w.m.kind == "bleu" && !w.m.sentence ? sum.v[1] / sum.v[2] : 0;
  return y + w.ent * ent;
}
Feat Slope(const LearnW& w, const Feat& x, double* norm) { Feat g; *norm = 0; for (auto& f : w.feats) { if (f == kScale) continue; Feat a = x, b = x; double h = 1e-5 * std::max(1.0, std::fabs(a[f])); a[f] += h; b[f] -= h; double d = (Objective(w, a) - Objective(w, b)) / (2 * h); g[f] = d; *norm += d * d; } *norm = std::sqrt(*norm); return g; }
// what a plain ascent from x still gains
double Gain(const LearnW& w, Feat x) {
  double y0 = Objective(w, x), y = y0, step = 1;
  for (int i = 0; i < 30; ++i) { double n; Feat g = Slope(w, x, &n); if (n < 1e-7) break; bool ok = false; for (int k = 0; k < 30 && !ok; ++k) { Feat t = x; for (auto& e : g) t[e.first] += step / n * e.second; double v = Objective(w, t); if (v > y + 1e-12) { x = t; y = v; ok = true; step *= 1.5; } else step /= 2; } if (!ok) break; }
  return y - y0;
}
// ---- online learners
struct Online {
  const LearnW& w; Feat cur; bool ambiguous = false; int iter = 0; Feat fin, var; std::map<std::string, int> last; double total_score = 0;
  Online(const LearnW& w) : w(w) {}
  size_t Best(const std::vector<Hyp>& l) { size_t b = 0; std::vector<double> v, m; for (auto& h : l) { double g = 0; v.push_back(Dot(cur, h.f, &g)); m.push_back(g); if (v.back() > v[b]) b = v.size() - 1; }
    for (size_t k = 0; k < l.size(); ++k) if (k != b && Near(v[k], v[b], m[k] + m[b]) && !SameStats(l[k].st, l[b].st)) ambiguous = true; return b; }
  bool Near(double a, double b, double mag) { if (w.dyadic) return false; return mag != 0 && std::fabs(a - b) < 1e-8 * (1 + mag); }
  bool NearScore(double a, double b, const Hyp& x, const Hyp& y) { if (x.f == y.f) return false; if (std::fabs(a - b) > 1e-8) return false; return !(w.exact_eval && SameStats(x.st, y.st)); }
  void Update(const Feat& o, double os, double oe, const Feat& s, double ss, double se) {
    Feat c = o; for (auto& x : s) c[x.first] -= x.second;
    if (w.update == "perceptron") { if (std::fabs(ss - os) < 1e-8 && ss != os && o != s) ambiguous = true; if (ss >= os) for (auto& x : c) cur[x.first] += x.second * w.rate; }
    else if (w.update == "avgperceptron") { ++iter; if (se < oe) for (auto& x : c) { double old = cur[x.first], neu = old + x.second; int prev = last[x.first]; fin[x.first] = (fin[x.first] * prev + old * (iter - prev - 1) + neu) / iter; last[x.first] = iter; cur[x.first] = neu; } }
    else { double a = ss + (oe - se) * w.margin; if (std::fabs(a - os) < 1e-8 && !(ss == os && (oe == se || w.margin == 0)) && o != s) ambiguous = true; if (a >= os) for (auto& x : c) if (x.second != 0) { var[x.first] += x.second * x.second; cur[x.first] += w.rate * x.second / std::sqrt(var[x.first]); } }
  }
  Feat Final() { if (w.update != "avgperceptron" || !iter) return cur; Feat r = fin; for (auto& x : cur) { int prev = last[x.first]; r[x.first] = (fin[x.first] * prev + x.second * (iter - prev)) / iter; } return r; }
  void Run(const Feat& start, unsigned seed) {
    cur = start; std::mt19937 gen(seed), pro; bool p = w.algo == "onlinepro"; if (p) pro.seed(gen()); size_t n = w.s.size(); std::vector<size_t> order(n), best(n); for (size_t i = 0; i < n; ++i) order[i] = i, best[i] = Best(w.s[i]);
    for (int it = 0; it < 100 && !ambiguous; ++it) {
      for (int i = (int)n - 1; i > 0; --i) std::swap(order[i], order[gen() % (i + 1)]);
      for (size_t idx : order) {
        const auto& l = w.s[idx]; Stats rest; for (size_t i = 0; i < n; ++i) if (i != idx) Add(rest, w.s[i][best[i]].st);
        std::vector<double> ms(l.size()), es(l.size()), mag(l.size(), 0); for (size_t k = 0; k < l.size(); ++k) { ms[k] = Dot(cur, l[k].f, &mag[k]); Stats t = rest; Add(t, l[k].st); es[k] = Score(w.m, t); if (std::isnan(es[k])) ambiguous = true; }
        if (p) Sample(l, ms, es, pro); else {
          size_t o = 0, s = 0; double top = -HUGE_VAL; for (size_t k = 0; k < l.size(); ++k) { double v = ms[k] - es[k] * w.margin; if (v > top) top = v, s = k; if (es[k] > es[o]) o = k; }
          for (size_t k = 0; k < l.size(); ++k) { double v = ms[k] - es[k] * w.margin; if (k != s && l[k].f != l[s].f) { if (w.margin == 0 ? Near(ms[k], ms[s], mag[k] + mag[s]) : std::fabs(v - top) < 1e-8 * (1 + mag[k] + mag[s])) ambiguous = true; } if (k != s && l[k].f == l[s].f && w.margin != 0 && std::fabs(es[k] - es[s]) < 1e-8 && !SameStats(l[k].st, l[s].st)) ambiguous = true; if (k != o && NearScore(es[k], es[o], l[k], l[o])) ambiguous = true; if (k != s && std::fabs(v - top) < 1e-8 && es[k] != es[s] && w.update == "avgperceptron" && w.margin != 0) ambiguous = true; }
          if (w.update == "avgperceptron" && es[s] != es[o] && std::fabs(es[s] - es[o]) < 1e-8) ambiguous = true;
          Update(l[o].f, ms[o], es[o], l[s].f, ms[s], es[s]);
        }
        best[idx] = Best(l); if (ambiguous) return;
      }
    }
    Feat f = Final(); cur = f; bool was = w.dyadic; if (w.update == "avgperceptron") const_cast<LearnW&>(w).dyadic = false; Stats t; for (size_t i = 0; i < n; ++i) Add(t, w.s[i][Best(w.s[i])].st); const_cast<LearnW&>(w).dyadic = was; total_score = Score(w.m, t);
  }
  void Sample(const std::vector<Hyp>& l, const std::vector<double>& ms, const std::vector<double>& es, std::mt19937& g) {
    std::vector<std::pair<double, std::pair<int, int>>> v;
    for (int i = 0; i < 5000; ++i) {
      int a = g() % l.size(), b = g() % l.size(); if (a != b && NearScore(es[a], es[b], l[a], l[b]) && es[a] != es[b]) ambiguous = true; if (es[b] > es[a]) std::swap(a, b);
      double d = (es[a] - es[b]) * (double)w.s.size(); if (std::fabs(d - 0.05) < 1e-8) ambiguous = true;
      if (d > 0.05) { double q = (double)g() / RAND_MAX; if (std::fabs(q - d) < 1e-9) ambiguous = true; if (q < d) v.push_back({es[b] - es[a], {a, b}}); }
    }
    std::sort(v.begin(), v.end()); size_t n = std::min<size_t>(50, v.size());
    for (size_t i = 1; i < v.size(); ++i) if (v[i].second != v[i - 1].second && std::fabs(v[i].first - v[i - 1].first) < 1e-9 && (v[i].first != v[i - 1].first || !w.exact_eval || !SameStats(l[v[i].second.first].st, l[v[i - 1].second.first].st) || !SameStats(l[v[i].second.second].st, l[v[i - 1].second.second].st)) && i <= 50 && (w.update != "perceptron" || i == n || !w.dyadic)) ambiguous = true;
    for (size_t i = 0; i < n; ++i) { int a = v[i].second.first, b = v[i].second.second; Update(l[a].f, ms[a], 1, l[b].f, ms[b], 0); }
  }
};
struct LearnProp : Prop {
  const char* Name() { return "learners-follow-their-rule"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<LearnW>(new LearnW); LearnW& f = *w; Job& j = f.j; j.tool = "batch-tune"; j.fn = batch_tune_main; j.threads_arg = "-threads";
    int k = r.below(20); f.algo = k < 10 ? "lbfgs" : k < 18 ? "online" : "onlinepro"; bool grad = f.algo == "lbfgs", pro = f.algo == "onlinepro";
    int factors = r.chance(0.1) ? 2 : 1, ns = r.range(1, pro ? 2 : grad ? 5 : 4), nf = r.range(1, 5); SV v; for (int i = r.range(3, 10); i > 0; --i) v.push_back("t" + N(i));
    std::vector<std::vector<SV>> refs; std::string t;
    for (int i = 0; i < ns; ++i) { std::vector<SV> x; for (int c = 0; c < factors; ++c) { SV s; for (int n = r.range(1, 8); n > 0; --n) s.push_back(v[r.below(v.size())]); x.push_back(s); t += (c ? " |COL| " : "") + Join(s); } refs.push_back(x); t += "\n"; }
    j.files["ref"] = t;
    auto value = [&](bool fine) { return fine ? r.range(-300, 300) / 100.0 : r.range(-6, 6) * 0.5; }; bool fine = grad ? r.chance(0.6) : r.chance(0.15); f.dyadic = !fine;
    SV fn; for (int i = 0; i < nf; ++i) fn.push_back("f" + N(i)); if (r.chance(0.2)) fn.push_back("lex=a");
    for (int tries = 0;; ++tries) {
      if (r.chance(grad ? 0.5 : 0.3)) { f.m = Spec(); f.m.kind = "bleu"; f.m.text = "bleu"; if (r.chance(0.7)) { f.m.order = r.range(1, 3); f.m.text += ":order=" + N(f.m.order); } } else if (grad && r.chance(0.3)) { f.m = Spec(); f.m.kind = "ter"; f.m.reverse = r.chance(0.7); f.m.text = f.m.reverse ? "ter:inverse=true" : r.chance(0.5) ? "ter" : "ter:inverse=false"; } else f.m = RandSpec(r, factors, 0, true);
      const Spec& m = f.m; if (!m.sub.empty() || m.kind == "nist" || (m.kind == "bleu" && m.prec == 0)) continue;
      if (grad && (m.kind == "wer" || (m.kind == "bleu" && !m.sentence && (m.smooth != 0 || m.prec != 1 || m.arith || m.inverse || !m.brev)))) continue;
      f.facts = Learn(f.m, refs); f.exact_eval = (m.kind == "bleu" && !m.sentence && m.smooth == 0) || m.kind == "wer" || m.kind == "zeroone"; f.s.assign(ns, {}); std::string o; bool ok = true;
      for (int i = 0; i < ns; ++i) {
        int n = grad && ns > 1 && i && i + 1 < ns && r.chance(0.05) ? 0 : r.range(1, r.chance(0.2) ? 12 : 6);
        for (int q = 0; q < n; ++q) {
          Hyp h; std::string text; double sum = 0;
          for (int again = 0; again < 8; ++again) { h.w.clear(); text.clear();
          for (int c = 0; c < factors; ++c) { SV s; for (auto& x : refs[i][c]) { if (r.chance(0.2)) continue; s.push_back(r.chance(0.15) ? v[r.below(v.size())] : x); } if (s.size() > 1 && r.chance(0.3)) std::swap(s[0], s.back()); if (s.empty()) s.push_back(v[0]); h.w.push_back(s); text += (c ? " |COL| " : "") + Join(s); }
          if (f.m.kind != "ter") break; h.st = Measure(f.m, f.facts, refs[i], h.w); if (h.st.lo == h.st.hi) break; }
          for (auto& x : fn) if (r.chance(0.8)) { double d = value(fine); if (d != 0) h.f[x] = d; sum += d; } if (h.f.empty()) h.f[fn[0]] = 1;
          h.st = Measure(f.m, f.facts, refs[i], h.w); if (h.st.lo != h.st.hi) ok = false; for (double d : h.st.v) if (std::isnan(d)) ok = false;
          o += N(i) + " ||| " + text + " ||| " + Num(sum) + " ||| " + Print(h.f) + "\n"; f.s[i].push_back(h);
        }
      }
      if (!ok) continue; j.files["nbest"] = o; break;
    }
    auto add = [&](const std::string& o, const std::string& x) { j.args.push_back("-" + o); j.args.push_back(x); };
    j.args.push_back("@/ref"); add("nbest", "@/nbest"); add("eval", f.m.text); if (factors > 1) add("trg_factors", "2"); add("algorithm", f.algo); f.seed = r.range(1, 1000); add("rand_seed", N(f.seed)); f.restarts = r.range(0, pro ? 0 : 2); add("restarts", N(f.restarts));
    if (grad) { if (r.chance(0.45)) { f.l2 = r.range(1, 20) / (r.chance(0.5) ? 500.0 : 100.0); add("l2", Num(f.l2)); } if (r.chance(0.25)) { f.ent = r.range(1, 10) / 50.0; add("ent", Num(f.ent)); } }
    else { f.update = pro ? (r.chance(0.7) ? "perceptron" : "adagrad") : r.chance(0.45) ? "perceptron" : r.chance(0.6) ? "avgperceptron" : "adagrad"; if (f.update != "perceptron" || r.chance(0.3)) add("update", f.update); if (f.update == "adagrad") f.dyadic = false;
      if (r.chance(0.4)) { f.rate = fine ? r.range(1, 30) / 10.0 : r.range(1, 8) / 4.0; add("rate", Num(f.rate)); } if (!pro && r.chance(f.update == "adagrad" ? 0.6 : 0.3)) { f.margin = r.range(1, 20) / 4.0; add("margin_scale", Num(f.margin)); } }
    if (r.chance(0.7)) { std::string x; for (auto& n : fn) if (r.chance(0.8)) f.init[n] = value(fine) / 2; if (grad && r.chance(0.45)) f.init[kScale] = r.range(1, 12) / 4.0; if (r.chance(0.1)) f.init["other"] = 1; for (auto& e : f.init) x += (x.empty() ? "" : r.chance(0.5) ? "\n" : " ") + e.first + "=" + Num(e.second); j.files["weights"] = x + "\n"; add("weight_in", "@/weights"); }
    for (auto& s : f.s) for (auto& h : s) for (auto& x : h.f) f.feats.insert(x.first); for (auto& x : f.init) f.feats.insert(x.first);
    add("debug", "1"); j.what = "batch-tune " + Join(j.args); JobPrepare(j, g_env.scratch); g_env.Reach(f.algo); g_env.Reach(f.m.kind); if (!grad) g_env.Reach(f.update); if (f.ent != 0) g_env.Reach("entropy"); if (f.l2 != 0) g_env.Reach("l2");
    if (!grad) {                                   // the seeds of the runs come from rand()
      char state[128]; random_data d; memset(&d, 0, sizeof d); initstate_r(f.seed, state, sizeof state, &d); int32_t x; size_t n = 0; for (auto& e : f.init) if (e.first != kScale) ++n;
      for (int i = 0; i < f.restarts + 2; ++i) { std::string who = i == 0 ? "Init" : i == 1 ? "Zero" : "Rand " + N(i); Feat st; bool ok = true; if (i == 0) st = f.init; if (i > 1) { st = f.init; for (size_t q = 0; q < n; ++q) { random_r(&d, &x); if (n == 1) for (auto& e : st) if (e.first != kScale) e.second *= x / (double)RAND_MAX; } bool all0 = true; for (auto& e : f.init) if (e.second != 0) all0 = false; ok = n <= 1 || all0; }
        random_r(&d, &x); if (!ok) { f.known[who] = 0; continue; } bool dy = f.dyadic; if (i > 1 && n) f.dyadic = false; Online o(f); o.Run(st, (unsigned)x); f.dyadic = dy; f.known[who] = !o.ambiguous; if (!o.ambiguous) f.ref[who] = {o.cur, o.total_score}; if (o.ambiguous) g_env.Reach("not_decided"); }
    }
    return std::unique_ptr<Workload>(w.release());
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { LearnW& w = (LearnW&)ww; if (k >= (w.algo == "onlinepro" ? 2 : 3)) return false; if (k == 0) p = Plain(); else { RandomSchedule(r, p); RandomBenignIo(r, p); p.heap_seed = r.next() | 1; } p.user = k == 0 ? 1 : k == 1 ? r.range(2, 5) : 1; p.step_limit = 60000000; return true; }
  static double Lines2(const LearnW&) { return 0; }
  static std::string Judge(LearnW& w, const std::string& who, const Feat& at, double score) {
    if (w.algo == "lbfgs") {
      double slack, ratio, y = Objective(w, at, &slack, &ratio), l2 = 0; for (auto& e : at) l2 += w.l2 * e.second * e.second; double tol = 2e-4 * std::max(1.0, std::fabs(y)) + 4 * slack + 1e-4 * l2; g_env.Reach("objectives_compared");
      if (!(std::fabs(y - score) <= tol)) return who + " reports " + Num(score) + " for " + Print(at) + ", whose objective is " + Num(y);
      if (who == "Init" || who == "Zero") { Feat st; if (who == "Init") st = w.init; double b = Objective(w, st); if (score < b - tol) return who + " started from an objective of " + Num(b) + " and ends with " + Num(score); }
      if (w.m.kind == "bleu" && !w.m.sentence && std::fabs(ratio - 1) < 0.02) { g_env.Reach("near_the_kink"); return ""; }
      Feat x = at; if (w.init.count(kScale)) x[kScale] = w.init[kScale]; if (who == "Zero") x[kScale] = 1; double norm, size = 1; for (auto& e : x) if (e.first != kScale) size += e.second * e.second; Slope(w, x, &norm); if (norm < 1e-3 * std::sqrt(size)) { g_env.Reach("stationary"); return ""; } double gain = Gain(w, x); g_env.Reach("ascents_tried"); if (getenv("DST_GAIN")) fprintf(stderr, "GAIN %g of %g %s %s\n", gain, y, w.m.text.c_str(), who.c_str());
      if (gain > 0.005 * std::max(0.2, std::fabs(y))) return who + " stops at an objective of " + Num(score) + " (" + Print(at) + "), where a step along the slope still gains " + Num(gain);
      return "";
    }
    auto it = w.ref.find(who); if (it == w.ref.end()) return ""; g_env.Reach("runs_compared"); const Feat& want = it->second.first; std::set<std::string> names; for (auto& x : want) names.insert(x.first); for (auto& x : at) names.insert(x.first); double big = 0; for (auto& x : want) big = std::max(big, std::fabs(x.second));
    for (auto& n : names) { double a = want.count(n) ? want.at(n) : 0, b = at.count(n) ? at.at(n) : 0; if (!(std::fabs(a - b) <= 2e-5 * std::fabs(a) + 1e-7 * (1 + big))) return who + " ends with " + n + "=" + Num(b) + ", the reference learner with " + Num(a) + " (" + Print(at) + " instead of " + Print(want) + ")"; }
    if (!std::isnan(it->second.second) && std::fabs(it->second.second - score) > 2e-5 * std::max(1.0, std::fabs(score))) return who + " reports a score of " + Num(score) + ", its weights have " + Num(it->second.second);
    return "";
  }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    LearnW& w = (LearnW&)ww; JobResult got; o = JobRun(w.j, p, g_env.scratch, (int)p.user, &got); Violation v = Universal(o, true); if (v.bad()) return v; std::string err = ReadFile(g_env.scratch + "/stderr");
    if (!o.ok_exit()) return {"tuning-failed", w.j.what + " ended with " + dsim::Describe(o) + ": " + Clip(err, 300)};
    if (!w.have) { w.have = true; w.first = got; } else if (!(w.first == got)) return {"weights-differ", w.j.what + ": " + Diff(w.first, got)};
    SV out = Lines(got.out["standard output"]); Feat best; if (out.size() != 1 || !ParseWeights(out[0], &best)) return {"bad-output", "standard output is <" + Clip(got.out["standard output"], 200) + ">"};
    double top = -HUGE_VAL, score = Undef(); bool own = false; size_t runs = 0; std::string top_text;
    for (auto& l : Lines(err)) {
      size_t e = l.find(" => "), c = l.find(": "); if (e == std::string::npos || c == std::string::npos || c > e) continue; std::string who = l.substr(0, c); Feat at; if (who != "Init" && who != "Zero" && who != "Best" && who.compare(0, 5, "Rand ")) continue; if (who != "Best" && p.user > 1) continue;
      std::string text = l.substr(c + 2, e - c - 2); if (!ParseWeights(text, &at)) return {"bad-output", "cannot understand <" + Clip(l, 200) + ">"}; double y = atof(l.c_str() + e + 4);
      if (who == "Best") { score = y; if (text != out[0]) return {"wrong-weights", "the best weights are " + text + ", standard output has " + out[0]}; continue; }
      ++runs; if (text == out[0]) own = true; if (y > top) top = y; std::string d = Judge(w, who, at, y); if (!d.empty()) return {"wrong-learning", w.j.what + ": " + d};
    }
    if (std::isnan(score)) return {"bad-output", "no line with the best weights: " + Clip(err, 200)};
    if (p.user <= 1) { if (runs != (size_t)w.restarts + 2) return {"bad-output", N(runs) + " runs are reported"}; if (std::fabs(score - top) > 1e-5 * std::max(1.0, std::fabs(top)) || !own) return {"not-the-best", w.j.what + ": the best run has a score of " + Num(top) + ", " + Num(score) + " is reported"}; }
    return v;
  }
};
Reg r(new LearnProp);
}
