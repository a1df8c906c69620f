// Reference evaluation measures: BLEU and its variants, NIST, RIBES, WER, 0/1, TER by bounds, linear and arithmetic combinations.
#pragma once
#include "prop.h"
#include "lmref.h"
#include <cmath>
#include <string.h>
#include <float.h>
#include <algorithm>
struct Spec {
  std::string kind, text, query; int order = 4, factor = 0; double smooth = 0, prec = 1, alpha = 0.25, beta = 0.1; bool sentence = false, arith = false, inverse = false, brev = true, reverse = false;
  std::vector<double> co; std::vector<Spec> sub; std::string vars;
};
struct Facts { std::map<SV, double> info; std::vector<Facts> sub; };
struct Stats { std::vector<double> v; double lo = 0, hi = 0; std::vector<Stats> sub; bool set = false; };
static inline double Undef() { return std::nan(""); }
static inline Spec RandSpec(dsim::Rng& r, int factors, int depth, bool no_nan) {
  Spec s; auto num = [](double d) { char b[32]; snprintf(b, sizeof b, "%g", d); return std::string(b); }; std::string c; auto opt = [&](const std::string& x) { c += (c.empty() ? ":" : ",") + x; };
  int k = r.below(depth ? 17 : 20);
  if (k < 7) { s.kind = "bleu";
    if (r.chance(0.4)) { s.order = r.range(1, 6); opt("order=" + N(s.order)); } if (r.chance(0.4)) { s.smooth = r.range(1, 8) / 4.0; opt("smooth=" + num(s.smooth)); } if (r.chance(0.25)) { s.prec = r.range(0, 20) / 20.0; opt("prec=" + num(s.prec)); }
    if (r.chance(0.25)) { s.sentence = r.chance(0.7); opt(std::string("scope=") + (s.sentence ? "sentence" : "corpus")); } if (r.chance(0.2)) { s.arith = r.chance(0.7); opt(std::string("mean=") + (s.arith ? "arith" : "geom")); }
    if (r.chance(0.15)) { s.inverse = r.chance(0.7); opt(std::string("inverse=") + (s.inverse ? "true" : "false")); } if (r.chance(0.2)) { s.brev = r.chance(0.3); opt(std::string("brev=") + (s.brev ? "true" : "false")); } }
  else if (k < 10) { s.kind = "ribes"; if (r.chance(0.3)) { s.alpha = r.range(0, 8) / 4.0; opt("alpha=" + num(s.alpha)); } if (r.chance(0.3)) { s.beta = r.range(0, 8) / 4.0; opt("beta=" + num(s.beta)); } }
  else if (k < 12) { s.kind = "nist"; s.order = 5; s.beta = 4.21617361683; if (r.chance(0.6)) { s.order = r.range(1, 5); opt("order=" + N(s.order)); } if (r.chance(0.2)) { s.beta = r.range(1, 20) / 4.0; opt("beta=" + num(s.beta)); } if (r.chance(0.2)) { s.sentence = r.chance(0.7); opt(std::string("scope=") + (s.sentence ? "sentence" : "corpus")); } }
  else if (k < 14) { s.kind = "wer"; if (r.chance(0.4)) { s.reverse = r.chance(0.8); opt(std::string("reverse=") + (s.reverse ? "true" : "false")); } }
  else if (k < 16) { s.kind = "ter"; if (r.chance(0.4)) { s.reverse = r.chance(0.8); opt(std::string("inverse=") + (s.reverse ? "true" : "false")); } }
  else if (k < 17) s.kind = "zeroone";
  else {
    s.kind = k < 19 ? "interp" : "ainterp"; int n = r.range(1, 3); std::string t = s.kind + ":";
    for (int i = 0; i < n; ++i) { Spec x = RandSpec(r, factors, 1, no_nan); s.sub.push_back(x); if (k < 19) { s.co.push_back(r.range(1, 9) / (r.chance(0.5) ? 1.0 : 4.0)); t += (i ? "|" : "") + num(s.co.back()) + "|" + x.text; } else { char v = 'A' + i * r.range(1, 5) % 24; while (s.vars.find(v) != std::string::npos) ++v; s.vars += v; t += std::string(1, v) + "|" + x.text + "|"; } }
    if (k == 19) { std::string q; int open = 0; for (int i = 0, m = r.range(1, 5); i < m; ++i) { while (r.chance(0.25)) { q += "("; ++open; } q += r.chance(0.6) ? std::string(1, s.vars[r.below(s.vars.size())]) : num(r.range(1, 40) / 8.0); while (open && r.chance(0.4)) { q += ")"; --open; } if (i + 1 < m) q += "+-*/"[r.below(4)]; } while (open--) q += ")"; s.query = q; t += q; }
    s.text = t; return s;
  }
  if (factors > 1 && s.kind != "nist" && s.kind != "zeroone" && r.chance(0.4)) { s.factor = r.below(factors); opt("factor=" + N(s.factor)); }
  s.text = s.kind + c; return s;
}
static inline std::map<SV, int> Grams(const SV& s, int order) { std::map<SV, int> m; for (int n = 1; n <= order; ++n) for (size_t i = 0; i + n <= s.size(); ++i) ++m[SV(s.begin() + i, s.begin() + i + n)]; return m; }
static inline Facts Learn(const Spec& s, const std::vector<std::vector<SV>>& refs) {
  Facts f; for (auto& x : s.sub) f.sub.push_back(Learn(x, refs)); if (s.kind != "nist") return f;
  std::map<SV, int> c; long words = 0; for (auto& l : refs) { words += l[0].size(); for (auto& g : Grams(l[0], s.order)) c[g.first] += g.second; }
  for (auto& g : c) { SV h(g.first.begin(), g.first.end() - 1); f.info[g.first] = std::log2((double)(h.empty() ? words : c[h]) / g.second); }
  return f;
}
static inline int Edits(const SV& a, const SV& b) { std::vector<int> d(b.size() + 1), e; for (size_t k = 0; k <= b.size(); ++k) d[k] = k; for (size_t i = 1; i <= a.size(); ++i) { e = d; d[0] = i; for (size_t k = 1; k <= b.size(); ++k) d[k] = std::min({e[k] + 1, d[k - 1] + 1, e[k - 1] + (a[i - 1] != b[k - 1])}); } return d[b.size()]; }
static inline double Ribes(const SV& ref, const SV& hyp, double alpha, double beta) {
  if (ref.empty()) return hyp.empty(); if (hyp.empty()) return 0;
  auto count = [](const SV& s, const SV& g, int* first) { int n = 0; for (size_t i = 0; i + g.size() <= s.size(); ++i) if (std::equal(g.begin(), g.end(), s.begin() + i)) { if (!n) *first = i; ++n; } return n; };
  std::vector<int> list; int n = hyp.size();
  for (int i = 0; i < n; ++i) { int a = 0, b;
    SV one(1, hyp[i]); if (!count(ref, one, &a)) continue; if (count(ref, one, &a) == 1 && count(hyp, one, &b) == 1) { list.push_back(a); continue; }
    for (int w = 1; w < std::max(i, n - i); ++w) {
      if (w <= i) { SV g(hyp.begin() + i - w, hyp.begin() + i + 1); if (count(ref, g, &a) == 1 && count(hyp, g, &b) == 1) { list.push_back(a + w); break; } }
      if (i + w < n) { SV g(hyp.begin() + i, hyp.begin() + i + w + 1); if (count(ref, g, &a) == 1 && count(hyp, g, &b) == 1) { list.push_back(a); break; } } } }
  double bp = std::min(1.0, std::exp(1.0 - (double)ref.size() / n)), tau; int m = list.size();
  if (m == 1 && ref.size() == 1) tau = 1; else if (m < 2) return 0;
  else { int up = 0; for (int i = 0; i < m; ++i) for (int k = i + 1; k < m; ++k) up += list[i] < list[k]; tau = up / (m * (m - 1) / 2.0); }
  return tau * std::pow((double)m / n, alpha) * std::pow(bp, beta);
}
static inline double Score(const Spec& s, const Stats& x, std::vector<double>* parts = nullptr);
static inline Stats Measure(const Spec& s, const Facts& f, const std::vector<SV>& refs, const std::vector<SV>& syss) {
  Stats x; x.set = true;
  if (!s.sub.empty()) { for (size_t i = 0; i < s.sub.size(); ++i) x.sub.push_back(Measure(s.sub[i], f.sub[i], refs, syss)); return x; }
  const SV& ref = refs[s.factor]; const SV& sys = syss[s.factor]; double nr = ref.size(), ns = sys.size();
  if (s.kind == "bleu") { auto a = Grams(ref, s.order), b = Grams(sys, s.order); x.v.assign(3 * s.order, 0); for (int i = 0; i < s.order; ++i) { x.v[3 * i + 1] = std::max(ns - i, 0.0); x.v[3 * i + 2] = std::max(nr - i, 0.0); } for (auto& g : b) if (a.count(g.first)) x.v[3 * (g.first.size() - 1)] += std::min(g.second, a[g.first]); }
  else if (s.kind == "nist") { auto a = Grams(ref, s.order), b = Grams(sys, s.order); x.v.assign(2 * s.order + 1, 0); for (int i = 0; i < s.order; ++i) x.v[2 * i + 1] = std::max(ns - i, 0.0); x.v.back() = nr; for (auto& g : b) if (a.count(g.first)) x.v[2 * (g.first.size() - 1)] += std::min(g.second, a[g.first]) * f.info.at(g.first); }
  else if (s.kind == "wer") x.v = {(double)Edits(ref, sys), nr};
  else if (s.kind == "zeroone") x.v = {ref == sys ? 1.0 : 0.0, 1};
  else if (s.kind == "ribes") x.v = {Ribes(ref, sys, s.alpha, s.beta), 1};
  else if (s.kind == "ter") { std::map<std::string, int> bag; for (auto& w : ref) ++bag[w]; int common = 0; for (auto& w : sys) if (bag[w]-- > 0) ++common; x.lo = std::max(nr, ns) - common; if (x.lo == 0 && ref != sys) x.lo = 1; x.hi = std::max(nr, ns) > 20 ? nr + ns : Edits(ref, sys); if (x.lo == x.hi && std::max(nr, ns) > 20) x.hi += 1e-9; x.v = {0, nr}; }
  if (s.sentence) { Spec c = s; c.sentence = false; double d = Score(c, x); x = Stats(); x.set = true; x.v = {d, 1}; }
  return x;
}
static inline void Add(Stats& a, const Stats& b) { if (!a.set) { a = b; return; } for (size_t i = 0; i < a.v.size(); ++i) a.v[i] += b.v[i]; a.lo += b.lo; a.hi += b.hi; for (size_t i = 0; i < a.sub.size(); ++i) Add(a.sub[i], b.sub[i]); }
struct Calc { const std::string& q; const Spec& s; const std::vector<double>& val; std::vector<double>* printed; size_t i = 0;
  double Sum() { double a = Prod(); while (i < q.size() && (q[i] == '+' || q[i] == '-')) { char c = q[i++]; double b = Prod(); a = c == '+' ? a + b : a - b; } return a; }
  double Prod() { double a = One(); while (i < q.size() && (q[i] == '*' || q[i] == '/')) { char c = q[i++]; double b = One(); a = c == '*' ? a * b : a / b; } return a; }
  double One() { if (q[i] == '(') { ++i; double a = Sum(); ++i; return a; } if (isalpha(q[i])) { double a = val[s.vars.find(q[i++])]; if (printed) printed->push_back(a); return a; } char* e; double a = strtod(q.c_str() + i, &e); i = e - q.c_str(); if (printed) printed->push_back(a); return a; } };
// The score; with parts, the numbers that are printed after it.
static inline double Score(const Spec& s, const Stats& x, std::vector<double>* parts) {
  if (s.kind == "interp") { double a = 0, b = 0; for (size_t i = 0; i < s.sub.size(); ++i) { double y = Score(s.sub[i], x.sub[i]); a += s.co[i] * y; b += s.co[i]; if (parts) { parts->push_back(y); parts->push_back(s.co[i]); } } return a / b; }
  if (s.kind == "ainterp") { std::vector<double> v; for (size_t i = 0; i < s.sub.size(); ++i) v.push_back(Score(s.sub[i], x.sub[i])); Calc c{s.query, s, v, parts}; return c.Sum(); }
  if (s.sentence || s.kind == "ribes" || s.kind == "zeroone") return x.v[0] / x.v[1];
  if (s.kind == "wer") { double y = x.v[1] ? x.v[0] / x.v[1] : 0; return s.reverse ? 1 - y : y; }
  if (s.kind == "ter") { if (x.lo != x.hi && x.v[1]) return Undef(); double y = x.v[1] ? x.lo / x.v[1] : 0; return s.reverse ? 1 - y : y; }
  if (s.kind == "nist") { double sum = 0, sys = x.v[1], ref = x.v.back(), ratio = sys / ref; for (int i = 0; i < s.order; ++i) { double y = x.v[2 * i + 1] ? x.v[2 * i] / x.v[2 * i + 1] : Undef(); sum += y; if (parts) parts->push_back(y); } double bp = ref == 0 ? Undef() : ratio >= 1 ? 1 : ratio <= 0 ? 0 : std::exp(-s.beta * std::log(ratio) * std::log(ratio)); if (parts) { parts->push_back(bp); parts->push_back(ref ? ratio : Undef()); parts->push_back(sys); parts->push_back(ref); } return sum * bp; }
  double geo = 1, ar = 0, sys = x.v[1], ref = x.v[2];
  for (int i = 0; i < s.order; ++i) { double sm = i ? s.smooth : 0, m = x.v[3 * i] + sm, a = x.v[3 * i + 1] + sm, b = x.v[3 * i + 2] + sm, d = s.prec * a + (1 - s.prec) * b, y = a == 0 ? 0 : d == 0 ? Undef() : std::min(1.0, m / d); if (s.inverse) y = 1 - y; geo *= y; ar += y / s.order; if (parts) parts->push_back(y); }
  double bp = ref == 0 && sys == 0 ? 1 : sys < ref ? std::exp(1 - ref / sys) : 1; if (!s.brev) bp = 1;
  if (parts) { parts->push_back(bp); parts->push_back(ref ? sys / ref : Undef()); parts->push_back(sys); parts->push_back(ref); }
  return bp * (s.arith ? ar : std::pow(geo, 1.0 / s.order));
}
// "" if the printed text is the measure's report of these statistics.
static inline std::string Skeleton(const std::string& t, std::vector<double>* nums) {
  std::string o;
  for (size_t i = 0; i < t.size();) {
    bool sign = t[i] == '-' && i + 1 < t.size() && (isdigit(t[i + 1]) || !t.compare(i + 1, 3, "nan") || !t.compare(i + 1, 3, "inf")) && (!i || (!isdigit(t[i - 1]) && t[i - 1] != ')' && !(i > 2 && (!t.compare(i - 3, 3, "nan") || !t.compare(i - 3, 3, "inf"))))); size_t b = i + sign;
    if (isdigit(t[b]) && (!i || !isalpha(t[i - 1]))) { char* e; nums->push_back(strtod(t.c_str() + i, &e)); i = e - t.c_str(); o += '#'; }
    else if ((!t.compare(b, 3, "nan") || !t.compare(b, 3, "inf")) && (!b || !isalpha(t[b - 1]))) { nums->push_back(t[b] == 'n' ? Undef() : sign ? -HUGE_VAL : HUGE_VAL); i = b + 3; o += '#'; }
    else o += t[i++];
  }
  return o;
}
static inline std::string Same(const std::string& got, const Spec& s, const Stats& x) {
  std::vector<double> want, have; std::string sk;
  if (s.sentence) sk = "AVG = #"; else if (s.kind == "bleu" || s.kind == "nist") { sk = std::string(s.kind == "nist" ? "NIST" : s.inverse ? "INV_BLEU" : "BLEU") + " = #, #"; for (int i = 1; i < s.order; ++i) sk += "/#"; sk += " (BP=#, ratio=#, hyp_len=#, ref_len=#)"; }
  else if (s.kind == "interp") { sk = "INTERP = # ("; for (size_t i = 0; i < s.sub.size(); ++i) sk += i ? " + #*#" : "#*#"; sk += ")/Z"; }
  else if (s.kind == "ainterp") { for (size_t i = 0; i < s.query.size();) if (strchr("()+-*/", s.query[i])) sk += s.query[i++]; else { sk += "#"; ++i; if (!isalpha(s.query[i - 1])) while (i < s.query.size() && (isdigit(s.query[i]) || s.query[i] == '.')) ++i; } sk += "=#"; }
  else { sk = s.kind + " = #"; for (auto& c : sk) c = toupper(c); }
  std::string text = got; double y = Score(s, x, s.sentence ? nullptr : &want); if (s.kind == "ainterp") want.push_back(y); else want.insert(want.begin(), y);
  std::string h = Skeleton(text, &have); if (h != sk) return "<" + Clip(got, 200) + "> does not have the form " + sk;
  for (size_t i = 0; i < want.size(); ++i) { double a = want[i], b = have[i]; if (std::isnan(a)) continue; if (std::isinf(a)) { if (std::fabs(b) > 1e6) continue; } else if (std::fabs(a) > 1e6 && std::fabs(b) > 1e6) continue; else if (std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), 1e-3) + 1e-9) continue; char buf[160]; snprintf(buf, sizeof buf, "number %d is %.8g instead of %.8g in <", (int)i + 1, b, a); return buf + Clip(got, 200) + ">"; }
  if (s.kind == "ter" && x.v[1]) { double e = (s.reverse ? 1 - have[0] : have[0]) * x.v[1]; if (e < x.lo - 0.01 - e * 1e-5 || e > x.hi + 0.01 + e * 1e-5 || std::fabs(e - std::floor(e + 0.5)) > 0.01 + e * 2e-5) { char buf[160]; snprintf(buf, sizeof buf, "%.6g edits are not between %g and %g in <", e, x.lo, x.hi); return buf + Clip(got, 200) + ">"; } }
  return "";
}
// How two files compare in every subset of their sentences: 0 equal, 1 first never lower, -1 never higher, 9 not known.
static inline int Dominates(const Spec& s, const std::vector<std::vector<Stats>>& a, const std::vector<std::vector<Stats>>& b, size_t m) {
  bool ge = true, le = true; if (!s.sub.empty() || s.kind == "ter" || a.size() != b.size()) return 9;
  bool eq = true; for (size_t i = 0; i < a.size(); ++i) { if (a[i][m].v != b[i][m].v) eq = false; for (double d : a[i][m].v) if (std::isnan(d)) return 9; for (double d : b[i][m].v) if (std::isnan(d)) return 9; } if (eq) return s.kind == "nist" ? 9 : 0;
  if (!(s.sentence || s.kind == "wer" || s.kind == "zeroone" || s.kind == "ribes")) return 9;
  for (size_t i = 0; i < a.size(); ++i) { double x = a[i][m].v[0], y = b[i][m].v[0]; if (x < y - 1e-9) ge = false; if (x > y + 1e-9) le = false; if (x != y && std::fabs(x - y) <= 1e-9) return 9; }
  if (s.kind == "wer" && s.reverse) std::swap(ge, le); return ge ? 1 : le ? -1 : 9;
}
