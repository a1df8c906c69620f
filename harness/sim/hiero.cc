// Hierarchical rule extraction against a reference extractor written from the definition
// (phrase pairs consistent with the alignment, tight on the target side; up to two gaps).
#include "jobs.h"
#include "lmref.h"
#include <algorithm>
using namespace dsim;
int hiero_extractor_main(int, char**);
namespace {
struct HieroW : Workload {
  Job j; bool mismatch = false, outside = false; size_t phrases = 0; std::map<std::string, int> want;
  std::string Describe() { return j.what; }
};
typedef std::set<std::pair<int, int>> Links;
struct Span { int sb, se, tb, te; };                            // half open
struct Hiero {
  const SV &s, &t; const Links& a; int maxlen, maxterm; std::vector<Span> ph;
  Hiero(const SV& s, const SV& t, const Links& a, int ml, int mt) : s(s), t(t), a(a), maxlen(ml), maxterm(mt) {
    int last = 0; for (auto& x : a) last = std::max(last, x.first + 1);   // source words after the last aligned one belong to no phrase
    for (int b = 0; b < last; ++b) for (int e = b + 1; e <= last && e - b <= maxlen; ++e) {
      int lo = 1 << 20, hi = -1; for (auto& x : a) if (x.first >= b && x.first < e) { lo = std::min(lo, x.second); hi = std::max(hi, x.second); }
      if (hi < 0 || hi - lo + 1 > maxlen) continue;
      bool ok = true; for (auto& x : a) if (x.second >= lo && x.second <= hi && (x.first < b || x.first >= e)) ok = false;
      if (ok) ph.push_back({b, e, lo, hi + 1});
    }
  }
  // the rule of phrase p with the given gaps; empty if it is not allowed
  std::string Rule(const Span& p, const std::vector<Span>& gaps) const {
    std::string l, r; std::vector<int> sw, tw; bool before = false;
    auto side = [&](const SV& words, int b, int e, bool src, std::string* o, std::vector<int>* terms) {
      for (int i = b; i < e; ) {
        int g = -1; for (size_t k = 0; k < gaps.size(); ++k) if (i == (src ? gaps[k].sb : gaps[k].tb)) g = k;
        if (i > b) *o += " ";
        if (g >= 0) { *o += "x" + N(g) + ":X"; if (src && before) return false; before = true; i = src ? gaps[g].se : gaps[g].te; }
        else { *o += "\"" + words[i] + "\""; terms->push_back(i); before = false; ++i; }
      }
      return true;
    };
    if (!side(s, p.sb, p.se, true, &l, &sw)) return ""; before = false; side(t, p.tb, p.te, false, &r, &tw);
    if (sw.empty() || tw.empty() || (int)sw.size() > maxterm || (int)tw.size() > maxterm) return "";
    std::string al; for (size_t i = 0; i < sw.size(); ++i) for (size_t k = 0; k < tw.size(); ++k) if (a.count({sw[i], tw[k]})) al += (al.empty() ? "" : " ") + N(i) + "-" + N(k);
    return l + " @ X ||| " + r + " @ X ||| #" + al;
  }
  static bool In(const Span& q, const Span& p) { return q.sb >= p.sb && q.se <= p.se && q.tb >= p.tb && q.te <= p.te; }
  static bool Apart(const Span& p, const Span& q) { return (p.se <= q.sb || q.se <= p.sb) && (p.te <= q.tb || q.te <= p.tb); }
  void Run(std::map<std::string, int>* out) const {
    for (size_t p = 0; p < ph.size(); ++p) {
      SV rules; auto add = [&](const std::vector<Span>& g) { std::string x = Rule(ph[p], g); if (!x.empty()) rules.push_back(x); };
      add({}); std::vector<Span> in; for (size_t q = 0; q < ph.size(); ++q) if (q != p && In(ph[q], ph[p])) in.push_back(ph[q]);
      for (auto& q : in) add({q});
      for (auto& q : in) for (auto& u : in) if (q.sb < u.sb && Apart(q, u)) add({q, u});
      char sc[32]; snprintf(sc, sizeof sc, "%g", rules.empty() ? 0.0 : 1.0 / rules.size());
      for (auto& x : rules) { size_t h = x.rfind('#'); (*out)[x.substr(0, h) + sc + " ||| " + x.substr(h + 1)]++; }
    }
  }
};
struct HieroProp : Prop {
  const char* Name() { return "hiero-rules-exact"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<HieroW>(new HieroW); HieroW& x = *w; Job& j = x.j; j.tool = "hiero-extractor"; j.fn = hiero_extractor_main;
    int ml = r.chance(0.4) ? 10 : r.range(1, 6), mt = r.chance(0.4) ? 5 : r.range(1, 4), ns = r.range(1, 5); std::string st, tt, at;
    for (int q = 0; q < ns; ++q) {
      int sl = r.chance(0.04) ? 0 : r.range(1, r.chance(0.2) ? 12 : 7), tl = r.chance(0.04) ? 0 : std::max(1, sl + r.range(-2, 2)); SV s, t; Links a;
      static const char* odd[] = {"x0", "x1:X", "-1", "0", "@", "|", "\"", "é", "<unk>", "<s>"};
      for (int i = 0; i < sl; ++i) s.push_back(r.chance(0.05) ? odd[r.below(10)] : "s" + N(r.below(6))); for (int i = 0; i < tl; ++i) t.push_back(r.chance(0.05) ? odd[r.below(10)] : "t" + N(r.below(6)));
      std::vector<int> pos; for (int i = 0; i < sl; ++i) pos.push_back(i); for (int k = r.range(0, 4); k > 0 && sl > 1; --k) { int p = r.below(sl - 1); std::swap(pos[p], pos[p + 1]); } if (r.chance(0.3)) for (int i = sl; i > 1; --i) if (r.chance(0.5)) std::swap(pos[i - 1], pos[r.below(i)]);
      double pa = r.chance(0.3) ? 1 : r.range(4, 9) / 10.0; if (tl) for (int i = 0; i < sl; ++i) { if (!r.chance(pa)) continue; int k = std::min(tl - 1, r.chance(0.5) ? pos[i] : pos[i] * tl / sl); a.insert({i, k}); if (r.chance(0.15)) a.insert({i, std::min(tl - 1, k + 1)}); if (r.chance(0.04)) a.insert({i, (int)r.below(tl)}); }
      SV al; for (auto& p : a) al.push_back(N(p.first) + "-" + N(p.second)); if (r.chance(0.2)) for (size_t i = al.size(); i > 1; --i) std::swap(al[i - 1], al[r.below(i)]); if (al.size() && r.chance(0.05)) al.push_back(al[0]);
      if (r.chance(0.01)) { x.outside = true; al.push_back(r.chance(0.5) ? N(sl + r.range(0, 3)) + "-" + N(tl ? r.below(tl) : 0) : N(sl ? r.below(sl) : 0) + "-" + N(tl + r.range(0, 3))); }
      st += Join(s) + "\n"; tt += Join(t) + "\n"; at += Join(al) + "\n";
      if (!x.outside) { Hiero h(s, t, a, ml, mt); h.Run(&x.want); x.phrases += h.ph.size(); }
    }
    if (r.chance(0.04)) { std::string* q[] = {&st, &tt, &at}; std::string& cut = *q[r.below(3)]; cut.pop_back(); size_t e = cut.rfind('\n'); cut = e == std::string::npos ? "" : cut.substr(0, e + 1); x.mismatch = true; }
    else if (r.chance(0.1)) { std::string* q[] = {&st, &tt, &at}; for (auto p : q) if (p->size() > 1 && (*p)[p->size() - 2] != '\n' && r.chance(0.5)) p->pop_back(); }
    j.files["src"] = st; j.files["trg"] = tt; j.files["align"] = at; if (ml != 10 || r.chance(0.3)) { j.args.push_back("-max_initial_phrase"); j.args.push_back(N(ml)); } if (mt != 5 || r.chance(0.3)) { j.args.push_back("-max_terminals"); j.args.push_back(N(mt)); }
    for (const char* q : {"@/src", "@/trg", "@/align"}) j.args.push_back(q);
    j.what = "hiero-extractor " + Join(j.args) + " sentences=" + N(ns) + " phrases=" + N(x.phrases); JobPrepare(j, g_env.scratch); return std::unique_ptr<Workload>(w.release());
  }
  bool NextPlan(Workload&, Rng& r, int k, Plan& p) { if (k >= 2) return false; p = Plain(); if (k) RandomBenignIo(r, p); return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    HieroW& x = (HieroW&)ww; JobResult got; o = JobRun(x.j, p, g_env.scratch, 0, &got); Violation v = Universal(o, false); if (v.bad()) return v;
    if (x.mismatch || x.outside) { if (o.ok_exit()) return {x.mismatch ? "mismatch-accepted" : "link-outside-accepted", x.mismatch ? "files with different numbers of lines were accepted" : "a link to a word that does not exist was accepted"}; g_env.Reach(x.mismatch ? "mismatch_refused" : "outside_refused"); return v; }
    if (!o.ok_exit()) return {"extractor-failed", "the extractor ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    std::map<std::string, int> have; SV l = Lines(ReadFile(g_env.scratch + "/stdout")); for (auto& s : l) have[s]++;
    for (auto& q : x.want) if (have[q.first] < q.second) return {"rule-missing", "<" + Clip(q.first, 200) + "> is extracted " + N(have[q.first]) + " times, not " + N(q.second)};
    for (auto& q : have) if (q.second > (x.want.count(q.first) ? x.want[q.first] : 0)) return {"rule-extra", "<" + Clip(q.first, 200) + "> does not follow from the alignment"};
    g_env.Reach("judged"); if (l.size() > 40) g_env.Reach("many_rules"); for (auto& s : l) if (s.find("x1:X") != std::string::npos) { g_env.Reach("two_gaps"); break; } return v;
  }
};
Reg r23(new HieroProp);
}
