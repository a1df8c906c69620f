// Rule extraction from aligned trees and forests against a reference extractor written from the
// definitions (GHKM frontier nodes, minimal rules, composition, null attachment, posteriors).
#include "jobs.h"
#include "lmref.h"
#include "forest.h"
#include <algorithm>
#include <cmath>
using namespace dsim;
int forest_extractor_main(int, char**);
namespace {
struct Rule { int head; std::vector<std::pair<int, int>> choice; std::vector<int> tails; int size = 1; double sc = 0; };
struct Want { std::string key; double score; bool optional; };
struct Conf { std::string bin, attach; int order, lex, term, nonterm, alen; bool norm, count; double thresh; };
struct ExtractW : Workload {
  Job j; bool usable = false, bad_input = false, outside = false, count = false, moved = false; std::vector<std::vector<Want>> want;
  std::string Describe() { return j.what; }
};
struct Extractor {
  const Forest& f; const Conf& c; std::vector<std::set<int>> al; int tlen; bool too_many = false;
  std::vector<std::set<int>> trg; std::vector<char> front; std::map<int, std::vector<Rule>> minr, comp;
  Extractor(const Forest& f, const Conf& c, const std::vector<std::pair<int, int>>& a, int tlen) : f(f), c(c), al(f.words.size()), tlen(tlen) {
    for (auto& x : a) al[x.first].insert(x.second);
    trg.resize(f.n.size()); front.resize(f.n.size());
    for (size_t i = 0; i < f.n.size(); ++i) { const Nd& n = f.n[i]; for (int k = n.l; k < n.r; ++k) trg[i].insert(al[k].begin(), al[k].end()); if (n.edges.empty() || trg[i].empty()) continue;
      bool ok = true; for (int k = 0; k < (int)al.size() && ok; ++k) if (k < n.l || k >= n.r) for (int t : al[k]) if (t >= *trg[i].begin() && t <= *trg[i].rbegin()) ok = false; front[i] = ok; }
  }
  void Expand(int v, std::vector<Rule>* out) {
    for (int e : f.n[v].edges) {
      std::vector<Rule> cur(1); cur[0].head = v; cur[0].choice = {{v, e}}; cur[0].sc = f.e[e].score;
      for (int t : f.e[e].tails) {
        if (f.n[t].edges.empty()) continue;
        if (front[t]) { for (auto& r : cur) r.tails.push_back(t); continue; }
        std::vector<Rule> sub, nxt; Expand(t, &sub);
        for (auto& a : cur) for (auto& b : sub) { Rule r = a; r.choice.insert(r.choice.end(), b.choice.begin(), b.choice.end()); r.tails.insert(r.tails.end(), b.tails.begin(), b.tails.end()); r.sc += b.sc; nxt.push_back(r); }
        cur.swap(nxt); if (cur.size() > 3000) { too_many = true; cur.resize(1); }
      }
      out->insert(out->end(), cur.begin(), cur.end());
    }
  }
  const std::vector<Rule>& Min(int v) { auto it = minr.find(v); if (it != minr.end()) return it->second; std::vector<Rule> r; Expand(v, &r); return minr[v] = r; }
  const std::vector<Rule>& Composed(int v) {
    auto it = comp.find(v); if (it != comp.end()) return it->second; std::vector<Rule> out;
    for (auto& m : Min(v)) {
      std::vector<Rule> cur = {m};
      if (c.order > 1 || c.lex > 0) for (size_t k = 0; k < m.tails.size(); ++k) {
        size_t left = m.tails.size() - k, end = cur.size();
        for (size_t i = 0; i < end && !too_many; ++i) for (auto& b : Composed(m.tails[k])) {
          const Rule a = cur[i]; int sum = a.size + b.size;
          if (sum > c.order && !(f.n[v].r - f.n[v].l <= c.lex && a.tails.size() == 1 && b.tails.empty())) continue;
          Rule r = a; size_t at = a.tails.size() - left; r.tails.erase(r.tails.begin() + at); r.tails.insert(r.tails.begin() + at, b.tails.begin(), b.tails.end()); r.choice.insert(r.choice.end(), b.choice.begin(), b.choice.end()); r.size = sum; r.sc = a.sc + b.sc; cur.push_back(r);
          if (cur.size() > 3000) { too_many = true; break; }
        }
      }
      out.insert(out.end(), cur.begin(), cur.end()); if (out.size() > 3000) too_many = true; if (too_many) break;
    }
    return comp[v] = out;
  }
  void Surface(int v, const std::map<int, int>& ch, int* x, std::string* s, std::vector<int>* ids) const {
    const Nd& n = f.n[v];
    if (n.edges.empty()) { *s += "\"" + n.sym + "\""; ids->push_back(n.l); return; }
    auto it = ch.find(v); if (it == ch.end()) { *s += "x" + N((*x)++) + ":" + n.sym; return; }
    *s += n.sym + " ("; for (int t : f.e[it->second].tails) { *s += " "; Surface(t, ch, x, s, ids); } *s += " )";
  }
  struct Node { int v, b, e; };                                   // a frontier node with its target range
  bool Run(const SV& tw, const std::map<std::pair<int, int>, std::string>* labs, std::vector<Want>* out) {
    if (f.n.empty() || !front[0]) return true;
    std::vector<int> order, todo = {0}; std::set<int> seen = {0};
    while (!todo.empty()) { int v = todo.back(); todo.pop_back(); order.push_back(v); Composed(v); if (too_many) return false; for (auto& r : comp[v]) for (int t : r.tails) if (seen.insert(t).second) todo.push_back(t); }
    std::vector<char> null(tlen, 1); for (auto& s : al) for (int t : s) null[t] = 0;
    std::vector<Node> nodes; std::map<int, std::vector<int>> of;
    for (int v : order) {
      int b = *trg[v].begin(), e = *trg[v].rbegin() + 1;
      if (c.attach == "top" && v == 0) { b = 0; e = tlen; }
      if (c.attach != "exhaustive") { of[v].push_back(nodes.size()); nodes.push_back({v, b, e}); continue; }
      for (int i = 0; i <= c.alen && b - i >= 0 && (!i || null[b - i]); ++i) for (int k = 0; k <= c.alen && e + k <= tlen && (!k || null[e + k - 1]); ++k) { of[v].push_back(nodes.size()); nodes.push_back({v, b - i, e + k}); }
    }
    struct Inst { int head; const Rule* r; std::vector<int> tails; double post; }; std::vector<Inst> in;
    for (size_t h = 0; h < nodes.size(); ++h) for (auto& r : comp[nodes[h].v]) {
      std::vector<std::vector<int>> ways(1);
      for (int t : r.tails) { std::vector<std::vector<int>> nw; for (auto& w : ways) for (int x : of[t]) {
          bool ok = nodes[x].b >= nodes[h].b && nodes[x].e <= nodes[h].e; for (int y : w) if (nodes[y].b < nodes[x].e && nodes[x].b < nodes[y].e) ok = false;
          if (ok) { nw.push_back(w); nw.back().push_back(x); } } ways.swap(nw); if (ways.size() > 4000) return false; }
      for (auto& w : ways) in.push_back({(int)h, &r, w, r.sc}); if (in.size() > 12000) return false;
    }
    if (c.norm) {
      std::vector<std::vector<int>> by(nodes.size()); for (size_t i = 0; i < in.size(); ++i) by[in[i].head].push_back(i);
      std::vector<double> inside(nodes.size(), 0), outside(nodes.size(), 0); std::vector<int> st(nodes.size(), 0), post;
      struct Go { std::vector<std::vector<int>>& by; std::vector<Inst>& in; std::vector<double>& inside; std::vector<int>&st, &post; void operator()(int n) { if (st[n]) return; st[n] = 1; for (int i : by[n]) { double p = std::exp(in[i].r->sc); for (int t : in[i].tails) { (*this)(t); p *= inside[t]; } inside[n] += p; } post.push_back(n); } } go = {by, in, inside, st, post};
      double z = 0; for (int h : of[0]) { go(h); z += inside[h]; } for (int h : of[0]) outside[h] = 1 / z;
      // nodes in topological order, heads first
      for (size_t q = post.size(); q-- > 0;) { int n = post[q]; for (int i : by[n]) for (size_t k = 0; k < in[i].tails.size(); ++k) { double p = outside[n] * std::exp(in[i].r->sc); for (size_t m = 0; m < in[i].tails.size(); ++m) if (m != k) p *= inside[in[i].tails[m]]; outside[in[i].tails[k]] += p; } }
      for (auto& x : in) { double p = outside[x.head] * std::exp(x.r->sc); for (int t : x.tails) p *= inside[t]; x.post = std::log(p); }
    }
    for (auto& x : in) {
      const Node& h = nodes[x.head]; double sc = std::exp(x.post); bool opt = false;
      if ((int)x.tails.size() > c.nonterm) continue;
      if (c.thresh > 0) { if (std::fabs(sc - c.thresh) < 1e-7) opt = true; else if (sc < c.thresh) continue; }
      std::map<int, int> ch(x.r->choice.begin(), x.r->choice.end()); std::vector<int> ids, tids; int nx = 0; std::string s; Surface(h.v, ch, &nx, &s, &ids);
      s += " |||"; std::vector<int> cov(h.e - h.b, -1); for (size_t i = 0; i < x.tails.size(); ++i) for (int k = nodes[x.tails[i]].b; k < nodes[x.tails[i]].e; ++k) cov[k - h.b] = i;
      auto lab = [&](int b, int e) -> std::string { if (!labs) return ""; auto it = labs->find({b, e}); return it == labs->end() ? "" : it->second; };
      int last = -1;
      for (int k = h.b; k < h.e; ++k) { int v = cov[k - h.b]; if (v < 0) { s += " \"" + tw[k] + "\""; tids.push_back(k); } else if (v != last) { const Node& t = nodes[x.tails[v]]; std::string l = lab(t.b, t.e); s += " x" + N(v) + (l.empty() ? "" : ":" + l); } last = v < 0 ? last : v; }
      std::string hl = lab(h.b, h.e); if (!hl.empty()) s += " @ " + hl;
      if ((int)ids.size() > c.term || (int)tids.size() > c.term) continue;
      // without attachment, words no rule covers still count against the root's limit
      if (c.attach == "none" && h.v == 0 && (int)tids.size() + tlen - (h.e - h.b) > c.term) opt = true;
      std::string a; for (size_t i = 0; i < ids.size(); ++i) for (size_t k = 0; k < tids.size(); ++k) if (al[ids[i]].count(tids[k])) a += (a.empty() ? "" : " ") + N(i) + "-" + N(k);
      out->push_back({s + " ||| " + a, sc, opt});
    }
    return true;
  }
};
struct ExtractProp : Prop {
  const char* Name() { return "extracted-rules-exact"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<ExtractW>(new ExtractW); ExtractW& x = *w; Job& j = x.j; Conf c;
    j.tool = "forest-extractor"; j.fn = forest_extractor_main; bool json = r.chance(0.45);
    static const char* bins[] = {"none", "left", "right", "leftrp", "rightrp", "cky"}; c.bin = bins[r.chance(0.4) ? 0 : r.range(1, 5)];
    static const char* at[] = {"none", "top", "exhaustive"}; c.attach = at[r.range(0, 2)]; c.alen = r.range(0, 3); c.order = r.range(1, r.chance(0.3) ? 5 : 3); c.lex = r.chance(0.4) ? 0 : r.chance(0.4) ? -1 : r.range(1, 7);
    c.term = r.chance(0.4) ? 10 : r.range(1, 5); c.nonterm = c.attach == "exhaustive" ? 12 : r.chance(0.3) ? 10 : r.range(0, 4); c.norm = r.chance(0.4); c.count = r.chance(0.08); c.thresh = r.chance(0.2) ? (c.norm ? r.range(1, 90) / 100.0 : r.chance(0.5) ? 0.5 : 0.99) : 0; x.count = c.count;
    if (c.lex < 0) c.lex = c.term; int tf = r.chance(0.3) ? r.range(1, 2) : 0;   // 1 penn 2 json
    std::string st, tt, at_; int ns = r.range(1, 4); bool ok = true; size_t rules = 0; int widest = 0; x.want.resize(ns); int maxw = c.order > 3 || c.attach == "exhaustive" ? 5 : r.chance(0.15) ? 10 : 7;
    for (int s = 0; s < ns; ++s) {
      Forest f; bool empty = r.chance(0.03) && !json;
      if (!empty) { ForestOpt o; o.words = r.range(1, maxw); o.packed = json && r.chance(0.7); o.flat = r.chance(0.15); o.scores = json && r.chance(0.6); f = MakeForest(r, o); if (json && r.chance(0.5)) ShuffleForest(r, &f); }
      st += (json ? ForestJson(f) : empty ? "()" : ForestPenn(f)) + "\n";
      Forest t; SV tw; int tl = r.range(1, 8); std::map<std::pair<int, int>, std::string> labs;
      if (tf) { ForestOpt o; o.words = tl; o.target = true; t = MakeForest(r, o); tw = t.words; tt += (tf == 1 ? ForestPenn(t) : ForestJson(t)) + "\n"; for (auto& n : t.n) labs.emplace(std::make_pair(n.l, n.r), n.sym); }
      else { for (int i = 0; i < tl; ++i) tw.push_back((r.chance(0.05) ? "q\"" : "t") + N(r.range(0, 5))); tt += Join(tw) + "\n"; }
      std::vector<std::pair<int, int>> a; int sl = f.words.size(); bool perm = r.chance(0.4); double pa = r.chance(0.3) ? 1 : 0.75; std::vector<int> pos; for (int i = 0; i < sl; ++i) pos.push_back(i);
      for (int k = r.range(0, 3); k > 0 && sl > 1; --k) { int q = r.below(sl - 1); std::swap(pos[q], pos[q + 1]); } if (perm) for (int i = sl; i > 1; --i) if (r.chance(0.4)) std::swap(pos[i - 1], pos[r.below(i)]);
      for (int i = 0; i < sl; ++i) { if (!r.chance(pa)) continue; int k = pos[i] * (r.chance(0.9) || tl > sl ? 1 : 0); if (tl < sl) k = k * tl / sl; else if (tl > sl && r.chance(0.5)) k = std::min(tl - 1, k + r.range(0, tl - sl)); if (k >= tl) k = tl - 1; a.push_back({i, k}); if (r.chance(0.12)) a.push_back({i, std::min(tl - 1, k + 1)}); if (r.chance(0.03)) a.push_back({i, (int)r.below(tl)}); }
      std::set<std::pair<int, int>> once(a.begin(), a.end()); a.assign(once.begin(), once.end()); if (r.chance(0.2)) for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[r.below(i)]);
      SV al; for (auto& p : a) al.push_back(N(p.first) + "-" + N(p.second)); if (sl && r.chance(0.004)) { x.outside = true; al.insert(al.begin() + r.below(al.size() + 1), N(r.below(sl)) + "-" + N(tl + r.range(0, 3))); } at_ += Join(al) + "\n";
      // known: this binariser loses the root unless the first edge read is the root's and is kept whole
      if (c.bin == "cky" && !f.e.empty() && (f.e[0].head != 0 || (f.e[0].tails.size() > 2 && f.e[0].tails.size() <= 7))) x.moved = true;
      bool clash = false; Forest b = BinarizeForest(f, c.bin, &clash); if (clash) { ok = false; continue; }
      Extractor e(b, c, a, tl); if (!e.Run(tw, tf ? &labs : nullptr, &x.want[s])) ok = false; for (auto& q : e.comp) for (auto& u : q.second) widest = std::max(widest, (int)u.tails.size()); rules += x.want[s].size();
    }
    if (c.attach == "exhaustive" && r.chance(0.5)) c.nonterm = widest;   // a limit no rule exceeds changes nothing
    if (x.moved && !r.chance(0.05)) ok = false;
    if (r.chance(0.04)) { std::string* q[] = {&st, &tt, &at_}; std::string& cut = *q[r.below(3)]; cut.pop_back(); size_t e = cut.rfind('\n'); cut = e == std::string::npos ? "" : cut.substr(0, e + 1); x.bad_input = true; }
    j.files["src"] = st; j.files["trg"] = tt; j.files["align"] = at_;
    auto opt = [&](const char* k, const std::string& v) { j.args.push_back(k); j.args.push_back(v); };
    opt("-input_format", json ? "json" : "penn"); opt("-output_format", tf == 1 ? "penn" : tf == 2 ? "json" : "word"); opt("-binarize", c.bin); opt("-attach", c.attach); opt("-attach_len", N(c.alen)); opt("-compose", N(c.order)); if (c.lex != c.term || r.chance(0.5)) opt("-src_lex_len", N(c.lex)); opt("-term_len", N(c.term)); opt("-nonterm_len", N(c.nonterm)); if (c.norm) opt("-normalize_probs", "true"); if (c.count) opt("-count_rules", "true");
    if (c.thresh > 0) { char b[32]; snprintf(b, sizeof b, "%g", c.thresh); opt("-partial_count_thresh", b); }
    for (const char* q : {"@/src", "@/trg", "@/align"}) j.args.push_back(q);
    j.what = "forest-extractor " + Join(j.args) + " sentences=" + N(ns) + " rules=" + N(rules); x.usable = ok; JobPrepare(j, g_env.scratch);
    g_env.Reach("attach_" + c.attach); g_env.Reach("binarize_" + c.bin); g_env.Reach(json ? "json" : "penn"); if (tf) g_env.Reach("target_labels"); if (c.norm) g_env.Reach("posteriors"); if (c.order > 1) g_env.Reach("composed");
    return std::unique_ptr<Workload>(w.release());
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) {
    ExtractW& x = (ExtractW&)ww; if (!x.usable || k >= 2) return false; p = Plain(); if (!k) return true; RandomBenignIo(r, p); return true;
  }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    Violation v = Judge(ww, p, o); if (v.bad() && ((ExtractW&)ww).moved && v.kind != "memory-fault") v.kind = "cky-root-moved"; return v;
  }
  Violation Judge(Workload& ww, const Plan& p, Outcome& o) {
    ExtractW& x = (ExtractW&)ww; JobResult got; o = JobRun(x.j, p, g_env.scratch, 0, &got);
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (x.bad_input || x.outside) { if (o.ok_exit()) return {x.bad_input ? "mismatch-accepted" : "link-outside-accepted", x.bad_input ? "the extractor accepted files with different numbers of lines" : "the extractor accepted a link to a target word that does not exist"}; g_env.Reach(x.bad_input ? "mismatch_refused" : "outside_refused"); return v; }
    if (!o.ok_exit()) return {"extractor-failed", "the extractor ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    SV l = Lines(ReadFile(g_env.scratch + "/stdout"));
    if (x.count) {
      if (l.size() != x.want.size()) return {"rule-count", N(l.size()) + " counts for " + N(x.want.size()) + " sentences"};
      for (size_t s = 0; s < l.size(); ++s) { int lo = 0, hi = 0; for (auto& q : x.want[s]) { ++hi; if (!q.optional) ++lo; } int n = atoi(l[s].c_str()); if (n < lo || n > hi) return {"rule-count", "sentence " + N(s + 1) + " has " + N(lo) + (hi > lo ? " to " + N(hi) : "") + " rules, not " + l[s]}; }
      g_env.Reach("counts"); return v;
    }
    std::map<std::string, std::vector<double>> have; std::map<std::string, std::pair<std::vector<double>, std::vector<double>>> want;
    for (auto& s : l) { size_t b = s.rfind(" ||| "), a = b == std::string::npos || !b ? b : s.rfind(" ||| ", b - 1); if (a == std::string::npos) return {"rule-malformed", "<" + Clip(s, 200) + ">"}; have[s.substr(0, a) + s.substr(b)].push_back(atof(s.c_str() + a + 5)); }
    for (auto& s : x.want) for (auto& q : s) (q.optional ? want[q.key].second : want[q.key].first).push_back(q.score);
    auto take = [](std::vector<double>& v, double s) { for (size_t i = 0; i < v.size(); ++i) if (std::fabs(v[i] - s) <= 1e-7 + 2e-5 * std::fabs(s)) { v.erase(v.begin() + i); return true; } return false; };
    for (auto& q : want) for (double s : q.second.first) { auto& h = have[q.first]; bool any = !h.empty(); if (!take(h, s)) return {any ? "rule-score" : "rule-missing", "<" + Clip(q.first, 200) + "> with score " + std::to_string(s) + (any ? ", not " + std::to_string(h[0]) : " is not extracted")}; }
    for (auto& h : have) for (double s : h.second) if (!take(want[h.first].second, s)) return {"rule-extra", "<" + Clip(h.first, 200) + "> with score " + std::to_string(s) + " does not follow from the alignment"};
    if (l.size() > 20) g_env.Reach("many_rules"); g_env.Reach("judged"); return v;
  }
};
Reg r22(new ExtractProp);
}
