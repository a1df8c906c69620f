// The decoder against an exhaustive reference decoder: every derivation of small inputs is enumerated.
#include "decoderef.h"
using namespace dsim;
namespace {
// ---- tree to string
struct Match { std::vector<int> x; Feat f; };
std::vector<Match> MatchAt(const Graph& g, const SV& p, size_t& i, int node) {   // pattern element at i against node
  std::vector<Match> out; const Node& nd = g.n[node];
  if (p[i][0] == '"') { std::string w = p[i].substr(1, p[i].size() - 2); ++i; if (nd.leaf && nd.lab == w) out.push_back({}); return out; }
  size_t c;
  if (p[i][0] == 'x' && (c = p[i].find(':')) != std::string::npos) { if (!nd.leaf && nd.lab == p[i].substr(c + 1)) { Match m; m.x.push_back(node); out.push_back(m); } ++i; return out; }
  std::string lab = p[i]; i += 2; size_t start = i, end = i; int depth = 1;
  std::vector<size_t> at; while (depth) { if (p[end] == "(") ++depth; else if (p[end] == ")") --depth; ++end; }
  // children start where depth is one and the token is not a parenthesis
  depth = 1; for (size_t k = start; k + 1 < end; ++k) { if (p[k] == "(") ++depth; else if (p[k] == ")") --depth; else if (depth == 1) at.push_back(k); }
  i = end; if (nd.leaf || nd.lab != lab) return out;
  for (auto& e : nd.edges) {
    if (e.tails.size() != at.size()) continue;
    std::vector<Match> cur(1); cur[0].f = e.f;
    for (size_t k = 0; k < at.size() && !cur.empty(); ++k) { size_t q = at[k]; auto ms = MatchAt(g, p, q, e.tails[k]); std::vector<Match> nx; for (auto& a : cur) for (auto& b : ms) { Match m = a; m.x.insert(m.x.end(), b.x.begin(), b.x.end()); Add(m.f, b.f); nx.push_back(m); } cur.swap(nx); }
    out.insert(out.end(), cur.begin(), cur.end());
  }
  return out;
}
struct TreeDecoder {
  const Graph& g; const std::vector<Rule>& rules; int factors; bool all_unk; std::map<int, Derivs> memo;
  const Derivs& At(int n) {
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    Derivs& d = memo[n]; bool any = false;
    for (auto& r : rules) { SV p = Split(r.tree, " "); size_t i = 0; if (p[0] != g.n[n].lab) continue;
      for (auto& m : MatchAt(g, p, i, n)) { any = true; std::vector<const Derivs*> kids; for (int x : m.x) kids.push_back(&At(x)); Combine(r, factors, kids, m.f, d); } }
    if (!any || all_unk) for (auto& e : g.n[n].edges) {
      Rule u; u.f["unk"] = 1; std::vector<const Derivs*> kids;
      if (e.tails.size() == 1 && g.n[e.tails[0]].leaf) { Tok t; t.w = g.n[e.tails[0]].lab; for (int c = 0; c < 2; ++c) u.trg[c].push_back(t); }
      else for (size_t k = 0; k < e.tails.size(); ++k) { Tok t; t.x = k; for (int c = 0; c < 2; ++c) u.trg[c].push_back(t); kids.push_back(&At(e.tails[k])); }
      Combine(u, factors, kids, e.f, d);
    }
    return d;
  }
};
// the labels of the target side as well: a variable takes the derivations of that label if there are any, else all of them at a price
typedef std::vector<std::string> Labels;
struct LabelDecoder {
  const Graph& g; const std::vector<Rule>& rules; int factors; bool all_unk; std::map<int, std::map<Labels, Derivs>> memo; std::map<int, Derivs> every;
  const std::map<Labels, Derivs>& Heads(int n) {
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    std::map<Labels, Derivs>& d = memo[n];
    for (auto& r : rules) { SV p = Split(r.tree, " "); size_t i = 0; if (p[0] != g.n[n].lab) continue; Labels head; for (int c = 0; c < factors; ++c) head.push_back(r.thead[c]);
      for (auto& m : MatchAt(g, p, i, n)) { std::vector<const Derivs*> kids; Feat f = m.f;
        for (size_t k = 0; k < m.x.size(); ++k) {
          Labels want; for (int c = 0; c < factors; ++c) for (auto& t : r.trg[c]) if (t.x == (int)k) { want.push_back(t.lab); break; }
          auto& h = Heads(m.x[k]); auto hit = h.find(want); if (hit != h.end()) kids.push_back(&hit->second); else { f["unmatch_trg"] += 1; g_env.Reach("target_label_missing"); kids.push_back(&At(m.x[k])); } }
        Combine(r, factors, kids, f, d[head]); } }
    return d;
  }
  const Derivs& At(int n) {
    auto it = every.find(n); if (it != every.end()) return it->second;
    auto& h = Heads(n); Derivs d; for (auto& k : h) { d.insert(d.end(), k.second.begin(), k.second.end()); if (d.size() > kMost) throw TooMany(); }
    if (h.size() > 1) g_env.Reach("several_target_labels");
    if (h.empty() || all_unk) for (auto& e : g.n[n].edges) {
      Rule u; u.f["unk"] = 1; std::vector<const Derivs*> kids;
      if (e.tails.size() == 1 && g.n[e.tails[0]].leaf) { Tok t; t.w = g.n[e.tails[0]].lab; for (int c = 0; c < 2; ++c) u.trg[c].push_back(t); }
      else for (size_t k = 0; k < e.tails.size(); ++k) { Tok t; t.x = k; for (int c = 0; c < 2; ++c) u.trg[c].push_back(t); kids.push_back(&At(e.tails[k])); }
      Combine(u, factors, kids, e.f, d);
    }
    return every[n] = d;
  }
};
// ---- strings
struct StringDecoder {
  const SV& w; const std::vector<std::vector<Rule>>& grammars; std::vector<int> limit; int factors; bool unknown_rules, delete_unknown; std::string unk_label = "X";
  std::map<std::pair<std::string, std::pair<int, int>>, Derivs> memo;
  void Rec(const Rule& r, int lim, size_t k, int pos, int to, std::vector<const Derivs*>& kids, Derivs& out, const std::string& head, int from) {
    if (k == r.src.size()) { if (pos == to) { Combine(r, factors, kids, {}, out); any = true; } return; }
    if (pos >= to) return;
    const Tok& t = r.src[k];
    if (t.x < 0) { if (w[pos] == t.w) Rec(r, lim, k + 1, pos + 1, to, kids, out, head, from); return; }
    for (int e = pos + 1; e <= to && e - pos <= lim; ++e) {
      if (k + 1 == r.src.size() && e != to) continue;
      if (pos == from && e == to && t.lab == head) continue;                  // would be a cycle
      const Derivs& d = At(t.lab, pos, e); if (d.empty()) continue; kids.push_back(&d); Rec(r, lim, k + 1, e, to, kids, out, head, from); kids.pop_back();
    }
  }
  bool any = false;
  const Derivs& At(const std::string& lab, int from, int to) {
    auto key = std::make_pair(lab, std::make_pair(from, to)); auto it = memo.find(key); if (it != memo.end()) return it->second;
    Derivs d; bool save = any; any = false;
    for (size_t q = 0; q < grammars.size(); ++q) for (auto& r : grammars[q]) if (r.head == lab) { std::vector<const Derivs*> kids; Rec(r, limit[q], 0, from, to, kids, d, lab, from); }
    if (!any && unknown_rules && to == from + 1 && lab == unk_label) { Rule u; u.f["unk"] = 1; Tok t; t.w = delete_unknown ? "" : w[from]; for (int c = 0; c < 2; ++c) u.trg[c].push_back(t); Combine(u, factors, {}, {}, d); }
    any = save; return memo[key] = d;
  }
};
struct Lm { RefLm m; int factor = 0; std::string feat, unk; };
struct SentRef { bool known = false, empty = false; Derivs d; };
struct SearchW : Workload { Job j; bool usable = false, exact = false, full = true, inc = false, member = true; int nbest = 0, factors = 1; bool uniq = false; Feat weights; std::vector<Lm> lms; std::vector<SentRef> ref; std::string Describe() { return j.what; } };

void AddLm(const SearchW& w, Deriv& d) {
  for (auto& l : w.lms) {
    SV h{"<s>"}; double p = 0; int unk = 0, len;
    for (auto& x : d.w[l.factor]) { bool k = l.m.Known(x); if (!k) ++unk; p += l.m.Score(h, k ? x : "<unk>", &len); h.push_back(k ? x : "<unk>"); }
    p += l.m.Score(h, "</s>", &len); d.f[l.feat] += p; if (unk) d.f[l.unk] += unk;
  }
}
std::vector<Rule> ParseRules(const std::string& s, bool hiero) {
  std::vector<Rule> v;
  for (auto& l : Lines(s)) { auto c = Cut(l, " ||| "); Rule r; r.f = ParseFeat(c[2]); ParseTrg(r, c[1]);
    if (hiero) { SV t = Split(c[0], " "); for (size_t i = 0; i < t.size(); ++i) { if (t[i] == "@") { r.head = t[i + 1]; break; } r.src.push_back(ParseTok(t[i])); } } else r.tree = c[0];
    v.push_back(r); }
  return v;
}
struct SearchProp : Prop {
  const char* Name() { return "decoder-search-exact"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto wp = std::unique_ptr<SearchW>(new SearchW); SearchW& w = *wp; Job& j = w.j; j = GenDecode(r, 4);
    bool packed = j.files.count("rules.gz"); bool hiero = Arg(j, "in_format") == "word"; std::string storage = j.what.substr(j.what.find("rules=") + 6); storage = storage.substr(0, storage.find(' '));
    for (auto it = j.binarise.begin(); it != j.binarise.end();) if (it->second.find("-q") != std::string::npos) it = j.binarise.erase(it); else ++it;
    w.full = storage != "cfg"; w.exact = r.chance(0.7) && w.full; if (w.exact) { SetArg(j, "pop_limit", "1000000"); SetArg(j, "chart_limit", "0"); }
    if (Arg(j, "nbest").empty() || r.chance(0.5)) { SetArg(j, "nbest", std::to_string(r.chance(0.3) ? r.range(20, 200) : r.range(1, 20))); SetArg(j, "nbest_out", "@/nbest"); if (std::find(j.outputs.begin(), j.outputs.end(), "nbest") == j.outputs.end()) j.outputs.push_back("nbest"); }
    w.nbest = atoi(Arg(j, "nbest").c_str()); w.uniq = Arg(j, "nbest_uniq") == "true"; w.inc = Arg(j, "search") == "inc"; w.factors = Arg(j, "trg_factors") == "2" ? 2 : 1; w.weights = ParseFeat(Arg(j, "weight_vals")); w.member = Arg(j, "consider_trg").empty();
    if (Arg(j, "in_format") == "egret" && r.chance(0.5)) { std::string v = Arg(j, "weight_vals") + " parse=" + std::to_string(r.unit()); SetArg(j, "weight_vals", v); w.weights = ParseFeat(v); }
    if (!w.member && r.chance(0.6)) { std::string v = Arg(j, "weight_vals") + " unmatch_trg=" + std::to_string(r.unit() - 0.7); SetArg(j, "weight_vals", v); w.weights = ParseFeat(v); }
    { std::string ini = j.files["conf.ini"]; size_t p = ini.find("[lm_file]\n"); if (p != std::string::npos) { std::string line = ini.substr(p + 10); line = line.substr(0, line.find('\n')); std::string now;
        int i = 0; bool rename = r.chance(0.4); for (auto t : Split(line, " ")) { Lm l; l.feat = "lm"; l.unk = "lmunk"; if (t.find("|factor=1") != std::string::npos) l.factor = 1; l.m.a = ParseArpa(j.files[t.substr(2, t.find('|') - 2)]); if (i && rename) { l.feat = "lm1"; l.unk = "lmunk1"; t += std::string(t.find('|') == std::string::npos ? "|" : ",") + "lm_feat=lm1,lm_unk_feat=lmunk1"; } now += (i++ ? " " : "") + t; w.lms.push_back(l); }
        j.files["conf.ini"] = ini.substr(0, p + 10) + now + ini.substr(p + 10 + line.size()); } }
    if (w.lms.empty()) w.inc = false;
    JobPrepare(j, g_env.scratch); if (packed) return wp;
    for (auto& l : w.lms) if (l.m.a.order < 2) return wp;           // refused by design
    std::vector<std::vector<Rule>> gr; std::vector<int> lim;
    gr.push_back(ParseRules(j.files["rules"], hiero)); lim.push_back(1 << 20);
    if (hiero) { if (storage == "fsm") { gr.push_back(ParseRules(j.files["glue"], true)); std::string ini = j.files["conf.ini"]; size_t p = ini.find("[hiero_span_limit]\n") + 19; lim = {atoi(ini.c_str() + p), 100}; } }
    for (auto& u : j.units) {
      SentRef s;
      try {
        Derivs d;
        if (hiero) { SV sent = Split(u, " \n"); StringDecoder sd{sent, gr, lim, w.factors, storage == "fsm", !Arg(j, "delete_unknown").empty()}; d = sd.At("S", 0, sent.size()); s.known = true; }
        else {
          Graph g; std::string b = Arg(j, "binarize");
          if (Arg(j, "in_format") == "penn") { SV t = PennToks(u); if (t.size() < 3) { s.empty = true; w.ref.push_back(s); continue; } size_t p = 0; g.root = ReadPenn(g, t, p); } else g = ReadEgret(u);
          bool tree = true; for (auto& n : g.n) if (n.edges.size() > 1) tree = false;
          if (b != "none") { if (tree) BinarizeTree(g, b == "right"); }
          if ((tree || b == "none") && !w.member) { LabelDecoder td{g, gr[0], w.factors, Arg(j, "all_unk") == "true"}; d = td.At(g.root); s.known = true; }
          if ((tree || b == "none") && w.member) { TreeDecoder td{g, gr[0], w.factors, Arg(j, "all_unk") == "true"}; d = td.At(g.root); s.known = true; }
        }
        for (auto& x : d) AddLm(w, x);
        s.d.swap(d);
      } catch (TooMany&) { s.known = false; }
      if (s.known && w.j.what.find(" packed") != std::string::npos && s.d.size() > 1) g_env.Reach("packed_forest_enumerated"); g_env.Reach(s.known ? "sentence_enumerated" : "sentence_not_enumerated"); w.ref.push_back(s);
    }
    w.j.what += " args: " + Join(w.j.args); w.usable = true; g_env.Reach("storage_" + storage); g_env.Reach(w.exact ? "unlimited_search" : "limited_search"); if (!w.lms.empty()) g_env.Reach(w.inc ? "incremental_search" : "cube_pruning"); if (w.factors == 2) g_env.Reach("two_factors");
    return wp;
  }
  bool NextPlan(Workload& w, Rng& r, int k, Plan& p) { if (!((SearchW&)w).usable || k >= 3) return false; if (k == 0) { p = Plain(); p.user = 1; return true; } RandomSchedule(r, p); p.step_limit = 3000000; p.user = r.chance(0.4) ? 1 : r.range(2, 5); return true; }
  static std::string Sides(const Deriv& d, int factors) { return Join(d.w[0]) + (factors == 2 ? " |COL| " + Join(d.w[1]) : ""); }
  static std::string Strip(const std::string& s) { return Join(Split(s, " ")); }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    SearchW& w = (SearchW&)ww; JobResult got; o = JobRun(w.j, p, g_env.scratch, (int)p.user, &got); Violation v = Universal(o, false); if (v.bad()) return v;
    if (!o.ok_exit()) return {"decode-failed", dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    SV out = Lines(got.out["standard output"]);
    if (out.size() != w.j.units.size()) return {"wrong-line-count", std::to_string(out.size()) + " translations of " + std::to_string(w.j.units.size()) + " sentences"};
    struct E { std::string words, raw; double score; Feat f; }; std::vector<std::vector<E>> nb(out.size());
    for (auto& l : Lines(got.out["nbest"])) { auto c = Cut(l, " ||| "); if (c.size() < 4 || atoi(c[0].c_str()) < 0 || atoi(c[0].c_str()) >= (int)out.size()) return {"bad-nbest-line", l}; nb[atoi(c[0].c_str())].push_back({Strip(c[1]), c[1], atof(c[2].c_str()), ParseFeat(c[3])}); }
    std::vector<std::map<int, Feat>> tr(out.size()); bool has_trace = got.out.count("trace") && got.out["trace"] != "(missing)";
    if (has_trace) for (auto& l : Lines(got.out["trace"])) { auto c = Cut(l, " ||| "); int s = atoi(c[0].c_str()), k = c.size() == 6 ? atoi(c[1].c_str()) : 0; if ((c.size() != 5 && c.size() != 6) || s < 0 || s >= (int)out.size()) return {"bad-trace-line", l}; Add(tr[s][k], ParseFeat(c.back())); }
    for (size_t i = 0; i < out.size(); ++i) {
      std::string at = "sentence " + std::to_string(i) + " (" + Clip(w.j.units[i], 200) + "): "; auto& n = nb[i]; SentRef& s = w.ref[i];
      if (s.empty) { if (!Strip(out[i]).empty() || !n.empty()) return {"translation-of-nothing", at + out[i]}; continue; }
      if ((int)n.size() > w.nbest) return {"too-many", at + std::to_string(n.size()) + " entries in a list of " + std::to_string(w.nbest)};
      if (!n.empty() && Strip(out[i]) != n[0].words) return {"best-is-not-first", at + "translation \"" + out[i] + "\", first of the n-best list \"" + n[0].words + "\""};
      std::vector<bool> used(s.d.size(), false); std::set<std::string> seen;
      for (size_t k = 0; k < n.size(); ++k) {
        E& e = n[k]; std::string me = at + "entry " + std::to_string(k) + " \"" + e.words + "\" ";
        double dot = Dot(e.f, w.weights); if (!Same(dot, e.score)) return {"score-is-not-weighted-features", me + "has score " + std::to_string(e.score) + ", its features give " + std::to_string(dot)};
        if (k && e.score > n[k - 1].score + 1e-3 + 1e-4 * fabs(e.score)) return {"nbest-out-of-order", me + "has score " + std::to_string(e.score) + " after " + std::to_string(n[k - 1].score)};
        if (w.uniq && !seen.insert(e.raw).second) return {"nbest-not-unique", me + "comes twice"};
        if (has_trace && (k == 0 || tr[i].size() > 1) && !Same(tr[i][k], e.f)) return {"trace-disagrees", me + "has features " + Show(e.f) + ", the rules of its trace " + Show(tr[i][k])};
        Deriv d; auto cs = Cut(e.words, " |COL| "); if (cs.size() == 1 && w.factors == 2) cs = Cut(e.words, "|COL|"); for (size_t q = 0; q < cs.size() && q < 2; ++q) d.w[q] = Split(cs[q], " ");
        Feat lm; { AddLm(w, d); lm = d.f; } if (Arg(w.j, "delete_unknown").empty()) for (auto& kv : lm) if (!Same(kv.second, e.f.count(kv.first) ? e.f[kv.first] : 0)) return {"wrong-lm-feature", me + "has " + kv.first + "=" + std::to_string(e.f[kv.first]) + ", the model gives " + std::to_string(kv.second)};
        if (s.known) { bool found = false; for (size_t q = 0; q < s.d.size() && !found; ++q) if (!used[q] && Strip(Sides(s.d[q], w.factors)) == e.words && Same(s.d[q].f, e.f)) { used[q] = found = true; }
          if (!found) return {"no-such-derivation", me + "with features " + Show(e.f) + " is no (further) derivation of the grammar; there are " + std::to_string(s.d.size())}; }
      }
      if (!s.known) continue;
      bool cfg = !w.full; if (s.d.empty() ? !n.empty() : n.empty() && !cfg) return {s.d.empty() ? "derivation-out-of-nothing" : "no-translation", at + (s.d.empty() ? "the grammar derives nothing, the decoder printed " : "the grammar has derivations, the decoder printed ") + "\"" + out[i] + "\""};
      if (s.d.empty()) { if (!Strip(out[i]).empty()) return {"derivation-out-of-nothing", at + out[i]}; continue; }
      std::vector<double> want; std::map<std::string, double> best; for (auto& d : s.d) { double x = Dot(d.f, w.weights); want.push_back(x); std::string k = Sides(d, w.factors); auto it = best.find(k); if (it == best.end() || it->second < x) best[k] = x; }
      if (w.uniq) { want.clear(); for (auto& b : best) want.push_back(b.second); }
      std::sort(want.rbegin(), want.rend());
      if ((!w.exact && !w.lms.empty()) || cfg) continue;
      size_t need = w.inc ? 1 : std::min<size_t>(w.nbest, want.size());
      if (n.size() < need || (!w.inc && n.size() != need)) return {"derivations-missing", at + std::to_string(n.size()) + " entries, the grammar has " + std::to_string(want.size()) + ", asked for " + std::to_string(w.nbest)};
      for (size_t k = 0; k < need; ++k) if (!Same(n[k].score, want[k])) return {"not-the-best", at + "entry " + std::to_string(k) + " \"" + n[k].words + "\" has score " + std::to_string(n[k].score) + ", the best remaining derivation has " + std::to_string(want[k])};
      g_env.Reach("sentence_judged_exactly");
    }
    return v;
  }
};
Reg r1(new SearchProp);
}
