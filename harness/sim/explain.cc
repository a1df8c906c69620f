// What the decoder prints beside a translation (search forest, trace, source tree, n-best list) must be one story:
// the forest's derivations are the n-best list, the trace rebuilds the translation and covers the input.
#include "js.h"
#include "decoderef.h"
using namespace dsim;
namespace {
struct Sym { int x = -1; std::string w; };
struct FE { int head = -1; std::vector<int> tails; std::vector<std::vector<Sym>> trg; std::vector<Sym> src; Feat f; double score = 0; };
struct FN { std::string sym; int l = 0, r = 0; double vit = 0; bool has_vit = false; std::vector<int> edges; };
struct DecForest { std::vector<FN> n; std::vector<FE> e; SV words; };
std::vector<Sym> SrcPattern(const std::string& s) {
  std::vector<Sym> o; if (s.empty()) { Sym k; k.x = 0; o.push_back(k); return o; }
  for (auto& t : Split(s, " ")) { Sym k; if (t[0] == '"' && t.size() > 1) k.w = t.substr(1, t.size() - 2); else if (t[0] == 'x' && t.size() > 1 && isdigit((unsigned char)t[1])) k.x = atoi(t.c_str() + 1); else continue; o.push_back(k); }
  return o;
}
std::vector<Sym> TrgPattern(const std::string& s) { std::vector<Sym> o; for (auto& t : Split(s, " ")) { if (t == "@") break; Tok a = ParseTok(t); Sym k; k.x = a.x; k.w = a.w; o.push_back(k); } return o; }
std::string ReadForest(const std::string& s, bool blind, DecForest* f) {
  JsReader rd{s}; Js top = rd.Value(); rd.Space(); if (rd.bad || rd.i != s.size() || top.type != '{') return "not valid JSON near character " + N(rd.i) + ": " + Clip(s.substr(rd.i > 40 ? rd.i - 40 : 0, 120));
  const Js *ns = top.Get("nodes"), *es = top.Get("edges"), *ws = top.Get("words"); if (!ns || !es || !ws) return "nodes, edges or words are missing";
  for (auto& v : ws->kids) f->words.push_back(v.second.s);
  for (auto& v : ns->kids) { const Js *id = v.second.Get("id"), *sym = v.second.Get("sym"), *span = v.second.Get("span"), *vit = v.second.Get("viterbi"); if (!id || !span || span->kids.size() != 2) return "a node is incomplete"; if (id->s != N(f->n.size())) return "nodes are not numbered in order"; FN n; if (sym) n.sym = sym->s; n.l = atoi(span->kids[0].second.s.c_str()); n.r = atoi(span->kids[1].second.s.c_str()); if (vit) { n.has_vit = true; n.vit = atof(vit->s.c_str()); } f->n.push_back(n); }
  for (auto& v : es->kids) {
    const Js *id = v.second.Get("id"), *head = v.second.Get("head"), *sc = v.second.Get("score"), *t = v.second.Get("tails"), *ft = v.second.Get("features"), *tg = v.second.Get("trg"), *sr = v.second.Get("src_str"); if (!id || id->s != N(f->e.size())) return "edges are not numbered in order";
    FE e; e.head = head ? atoi(head->s.c_str()) : -1; if (sc) e.score = atof(sc->s.c_str()); if (t) for (auto& x : t->kids) e.tails.push_back(atoi(x.second.s.c_str())); if (ft) for (auto& x : ft->kids) e.f[x.first] += atof(x.second.s.c_str());
    if (e.head < 0 || e.head >= (int)f->n.size()) return "edge " + N(f->e.size()) + " has no head"; for (int q : e.tails) if (q < 0 || q >= (int)f->n.size()) return "edge " + N(f->e.size()) + " has a tail that does not exist";
    if (tg) for (auto& x : tg->kids) { std::vector<Sym> p; const Js* w = x.second.Get("words"); if (w) for (auto& y : w->kids) { Sym k; if (y.second.type == 's') k.w = y.second.s; else k.x = -1 - atoi(y.second.s.c_str()); p.push_back(k); } e.trg.push_back(p); }
    e.src = SrcPattern(sr ? sr->s : "");
    for (auto& p : e.trg) for (auto& k : p) if (k.x >= (int)e.tails.size()) return "edge " + N(f->e.size()) + " translates tail " + N(k.x) + " of " + N(e.tails.size());
    if (blind) e.src.clear(); for (auto& k : e.src) if (k.x >= (int)e.tails.size()) return "edge " + N(f->e.size()) + " covers tail " + N(k.x) + " of " + N(e.tails.size());
    f->n[e.head].edges.push_back(f->e.size()); f->e.push_back(e);
  }
  return "";
}
struct FD { SV w[2], src; Feat f; double s = 0; std::vector<int> edges; };
struct Unfold {                                     // every derivation below a node, at most kMost; a node within itself is an error
  const DecForest& f; int factors; std::map<int, std::vector<FD>> memo; std::set<int> open; std::string bad;
  const std::vector<FD>& At(int v) {
    auto it = memo.find(v); if (it != memo.end()) return it->second; if (!open.insert(v).second) { bad = "node " + N(v) + " lies below itself"; return memo[v]; }
    std::vector<FD> out;
    for (int ei : f.n[v].edges) {
      const FE& e = f.e[ei]; std::vector<const std::vector<FD>*> kids; bool none = false; for (int t : e.tails) { kids.push_back(&At(t)); if (!bad.empty()) return memo[v]; if (kids.back()->empty()) none = true; } if (none) continue;
      std::vector<size_t> ix(kids.size(), 0);
      for (;;) {
        FD d; d.s = e.score; d.f = e.f; d.edges.push_back(ei);
        for (int c = 0; c < factors && c < (int)e.trg.size(); ++c) for (auto& k : e.trg[c]) { if (k.x < 0) d.w[c].push_back(k.w); else { auto& q = (*kids[k.x])[ix[k.x]].w[c]; d.w[c].insert(d.w[c].end(), q.begin(), q.end()); } }
        for (auto& k : e.src) { if (k.x < 0) d.src.push_back(k.w); else { auto& q = (*kids[k.x])[ix[k.x]].src; d.src.insert(d.src.end(), q.begin(), q.end()); } }
        for (size_t i = 0; i < kids.size(); ++i) { const FD& q = (*kids[i])[ix[i]]; d.s += q.s; Add(d.f, q.f); d.edges.insert(d.edges.end(), q.edges.begin(), q.edges.end()); }
        out.push_back(d); if (out.size() > kMost) throw TooMany();
        size_t p = 0; while (p < ix.size() && ++ix[p] == kids[p]->size()) ix[p++] = 0; if (p == ix.size()) break;
      }
    }
    open.erase(v); return memo[v] = out;
  }
};
struct TL { int l, r; std::string srcs; std::vector<Sym> src; std::vector<std::vector<Sym>> trg; Feat f; };
struct Built { SV w[2], src; int l = 0, r = 0; };
struct Rebuild {                                    // a trace: rules from the root down, children in the order of their numbers
  const std::vector<TL>& t; int factors; bool blind; size_t i = 0; std::string bad;
  Built Go(int depth = 0) {
    Built b; if (i >= t.size()) { if (bad.empty()) bad = "the trace ends before its rules do"; return b; } const TL& me = t[i++]; b.l = me.l; b.r = me.r;
    int n = 0; if (blind) for (auto& p : me.trg) for (auto& k : p) n = std::max(n, k.x + 1); for (auto& k : me.src) if (!blind) n = std::max(n, k.x + 1); for (auto& p : me.trg) for (auto& k : p) if (k.x >= n) { bad = "a rule translates x" + N(k.x) + ", its source side has " + N(n) + " parts: " + me.srcs; return b; }
    std::vector<Built> kids; for (int k = 0; k < n; ++k) { kids.push_back(Go(depth + 1)); if (!bad.empty()) return b; if (kids[k].l < b.l || kids[k].r > b.r) { bad = "[" + N(kids[k].l) + ", " + N(kids[k].r) + "] is used within [" + N(b.l) + ", " + N(b.r) + "]"; return b; } for (int q = 0; q < k; ++q) if (kids[k].l < kids[q].r && kids[q].l < kids[k].r) { bad = "two parts of one rule cover the same words: [" + N(kids[k].l) + ", " + N(kids[k].r) + "] and [" + N(kids[q].l) + ", " + N(kids[q].r) + "]"; return b; } }
    for (int c = 0; c < factors && c < (int)me.trg.size(); ++c) for (auto& k : me.trg[c]) { if (k.x < 0) b.w[c].push_back(k.w); else b.w[c].insert(b.w[c].end(), kids[k.x].w[c].begin(), kids[k.x].w[c].end()); }
    if (!blind) for (auto& k : me.src) { if (k.x < 0) b.src.push_back(k.w); else b.src.insert(b.src.end(), kids[k.x].src.begin(), kids[k.x].src.end()); }
    if (!blind && (int)b.src.size() != b.r - b.l) bad = "a rule over [" + N(b.l) + ", " + N(b.r) + "] covers the words \"" + Join(b.src) + "\"";
    return b;
  }
};
std::string TreeText(const Graph& g, int v) { const Node& n = g.n[v]; if (n.leaf) return '"' + n.lab + '"'; std::string s = n.lab + " ( "; for (int t : n.edges[0].tails) s += TreeText(g, t) + " "; return s + ")"; }
struct ExplainW : Workload { Job j; bool usable = false, uniq = false, cfg = false; int nbest = 0, trim = 0, factors = 1; Feat weights; std::vector<SV> words; SV tree; std::string Describe() { return j.what; } };
std::string Rename(const std::string& s, const std::map<std::string, std::string>& m) {
  std::string o; size_t i = 0; while (i < s.size()) { if (s[i] == 's' && (!i || !isalnum((unsigned char)s[i - 1])) && i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) { size_t e = i + 1; while (e < s.size() && isdigit((unsigned char)s[e])) ++e; auto it = m.find(s.substr(i, e - i)); o += it == m.end() ? s.substr(i, e - i) : it->second; i = e; } else o += s[i++]; }
  return o;
}
struct ExplainProp : Prop {
  const char* Name() { return "decoder-explains-itself"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto wp = std::unique_ptr<ExplainW>(new ExplainW); ExplainW& w = *wp; Job& j = w.j; j = GenDecode(r, r.chance(0.3) ? 7 : 4);
    std::string storage = j.what.substr(j.what.find("rules=") + 6); storage = storage.substr(0, storage.find(' ')); bool hiero = Arg(j, "in_format") == "word"; w.cfg = storage == "cfg";
    for (auto it = j.binarise.begin(); it != j.binarise.end();) if (it->second.find("-q") != std::string::npos) it = j.binarise.erase(it); else ++it;
    SetArg(j, "delete_unknown", ""); auto out = [&](const char* n) { if (std::find(j.outputs.begin(), j.outputs.end(), n) == j.outputs.end()) j.outputs.push_back(n); };
    auto drop = [&](const char* n) { j.outputs.erase(std::remove(j.outputs.begin(), j.outputs.end(), std::string(n)), j.outputs.end()); };
    bool nb = r.chance(0.8), fo = r.chance(0.7), tr = r.chance(0.7); if (!fo && !tr) tr = true;
    if (nb) { SetArg(j, "nbest", N(r.chance(0.3) ? r.range(10, 80) : r.range(1, 10))); SetArg(j, "nbest_out", "@/nbest"); out("nbest"); SetArg(j, "nbest_tree", !hiero && r.chance(0.4) ? "true" : ""); SetArg(j, "nbest_uniq", r.chance(0.3) ? "true" : ""); } else { SetArg(j, "nbest", ""); SetArg(j, "nbest_out", ""); SetArg(j, "nbest_tree", ""); SetArg(j, "nbest_uniq", ""); drop("nbest"); }
    if (tr) { SetArg(j, "trace_out", "@/trace"); out("trace"); } else { SetArg(j, "trace_out", ""); drop("trace"); }
    if (fo) { SetArg(j, "forest_out", "@/forest"); out("forest"); SetArg(j, "forest_nbest_trim", r.chance(0.5) ? N(r.chance(0.3) ? r.range(5, 60) : r.range(1, 5)) : ""); } else { SetArg(j, "forest_out", ""); SetArg(j, "forest_nbest_trim", ""); drop("forest"); }
    if (Arg(j, "in_format") == "egret" && r.chance(0.5)) SetArg(j, "weight_vals", Arg(j, "weight_vals") + " parse=" + std::to_string(r.unit()));
    w.nbest = nb ? atoi(Arg(j, "nbest").c_str()) : 0; w.uniq = !Arg(j, "nbest_uniq").empty(); w.trim = atoi(Arg(j, "forest_nbest_trim").c_str()); w.factors = Arg(j, "trg_factors") == "2" ? 2 : 1; w.weights = ParseFeat(Arg(j, "weight_vals"));
    if (!j.files.count("rules.gz") && r.chance(0.3)) {      // source words that mean something to a formatter
      static const char* odd[] = {"$1", "$&", "a\\b", "x1:s", "$", "{x}", "\\1", "(?1", "d&e", "s'"}; std::map<std::string, std::string> m; for (int k = r.range(1, 3); k > 0; --k) { std::string s = odd[r.below(10)]; if (Arg(j, "in_format") == "penn" && s[0] == '(') s = "$2"; m["s" + N(r.range(0, 9))] = s; }
      if (Arg(j, "in_format") == "word") for (auto& k : m) if (k.second[0] == 'x') k.second = "$3"; 
      std::string in; for (auto& u : j.units) { u = Rename(u, m); in += u; } j.files["input"] = in; for (const char* f : {"rules", "glue"}) if (j.files.count(f)) { std::string now; for (auto& l : Lines(j.files[f])) { size_t c = l.find(" ||| "); now += Rename(l.substr(0, c), m) + l.substr(c) + "\n"; } j.files[f] = now; } g_env.Reach("odd_source_words");
    }
    JobPrepare(j, g_env.scratch);
    for (auto& f : j.files) if (f.first.compare(0, 2, "lm") == 0 && ParseArpa(f.second).order < 2) return wp;      // refused by design
    for (auto& u : j.units) {
      SV ws; std::string tree; std::string f = Arg(j, "in_format");
      if (f == "word") ws = Split(u, " \n");
      else if (f == "penn") { SV t = PennToks(u); if (t.size() >= 3) { Graph g; size_t p = 0; g.root = ReadPenn(g, t, p); ws = g.words; if (Arg(j, "binarize") != "none") BinarizeTree(g, Arg(j, "binarize") == "right"); tree = TreeText(g, g.root); } }
      else ws = ReadEgret(u).words;
      w.words.push_back(ws); w.tree.push_back(tree);
    }
    w.j.what += " args: " + Join(w.j.args); w.usable = true; g_env.Reach("storage_" + storage); if (fo) g_env.Reach(w.trim ? "trimmed_forest" : "whole_forest"); if (tr) g_env.Reach(nb ? "nbest_trace" : "best_trace"); if (w.factors == 2) g_env.Reach("two_factors");
    return wp;
  }
  bool NextPlan(Workload& w, Rng& r, int k, Plan& p) { if (!((ExplainW&)w).usable || k >= 3) return false; if (k == 0) { p = Plain(); p.user = 1; return true; } RandomSchedule(r, p); p.step_limit = 3000000; p.user = r.chance(0.4) ? 1 : r.range(2, 5); return true; }
  static std::string Sides(const SV* w, int factors) { return Join(w[0]) + (factors == 2 ? (w[0].empty() ? "|COL|" : " |COL|") + std::string(w[1].empty() ? "" : " ") + Join(w[1]) : ""); }
  static std::string Strip(const std::string& s) { return Join(Split(s, " ")); }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    ExplainW& w = (ExplainW&)ww; JobResult got; o = JobRun(w.j, p, g_env.scratch, (int)p.user, &got); Violation v = Universal(o, false); if (v.bad()) return v;
    if (!o.ok_exit()) return {"decode-failed", dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    SV out = Lines(got.out["standard output"]); size_t ns = w.j.units.size(); if (out.size() != ns) return {"wrong-line-count", N(out.size()) + " translations of " + N(ns) + " sentences"};
    struct E { std::string words, tree; double score; Feat f; }; std::vector<std::vector<E>> nb(ns); bool has_nb = got.out.count("nbest") && got.out["nbest"] != "(missing)", wtree = !Arg(w.j, "nbest_tree").empty();
    if (has_nb) for (auto& l : Lines(got.out["nbest"])) { auto c = Cut(l, " ||| "); size_t s = atoi(c[0].c_str()); if (c.size() != (wtree ? 5u : 4u) || s >= ns) return {"bad-nbest-line", l}; nb[s].push_back({Strip(c[1]), wtree ? c[4] : "", atof(c[2].c_str()), ParseFeat(c[3])}); }
    std::vector<std::map<int, std::vector<TL>>> tr(ns); bool has_tr = got.out.count("trace") && got.out["trace"] != "(missing)"; int last_s = -1, last_k = -1;
    if (has_tr) for (auto& l : Lines(got.out["trace"])) {
      auto c = Cut(l, " ||| "); size_t b = has_nb ? 2 : 1; if (c.size() != b + 4 || atoi(c[0].c_str()) < 0 || atoi(c[0].c_str()) >= (int)ns) return {"bad-trace-line", l}; int s = atoi(c[0].c_str()), k = has_nb ? atoi(c[1].c_str()) : 0;
      if (s < last_s || (s == last_s && k != last_k && k != last_k + 1) || (s != last_s && k != 0)) return {"trace-out-of-order", "after sentence " + N(last_s) + " translation " + N(last_k) + ": " + l}; last_s = s; last_k = k;
      TL t; if (sscanf(c[b].c_str(), "[%d, %d]", &t.l, &t.r) != 2) return {"bad-trace-line", l}; t.srcs = c[b + 1]; t.src = SrcPattern(c[b + 1]); for (auto& q : Cut(c[b + 2], " |COL| ")) t.trg.push_back(TrgPattern(q)); t.f = ParseFeat(c[b + 3]); if ((int)t.trg.size() != w.factors) return {"bad-trace-line", l}; tr[s][k].push_back(t);
    }
    bool ctrg = !Arg(w.j, "consider_trg").empty(); bool blind = w.cfg || (Arg(w.j, "trace_out").empty() && !wtree); SV fl; bool has_fo = got.out.count("forest") && got.out["forest"] != "(missing)"; if (has_fo) { fl = Lines(got.out["forest"]); if (fl.size() != ns) return {"wrong-forest-count", N(fl.size()) + " forests of " + N(ns) + " sentences"}; }
    for (size_t i = 0; i < ns; ++i) {
      std::string at = "sentence " + N(i) + " (" + Clip(w.j.units[i], 200) + "): "; auto& n = nb[i]; std::string best = Strip(out[i]);
      if (has_nb && (n.empty() ? !best.empty() : n[0].words != best)) return {"best-is-not-first", at + "translation \"" + best + "\", first of the list " + (n.empty() ? "(none)" : "\"" + n[0].words + "\"")};
      if (has_tr) {
        size_t want = has_nb ? n.size() : tr[i].size(); if (tr[i].size() != want) return {"trace-incomplete", at + N(tr[i].size()) + " traces of " + N(want) + " translations"}; if (!has_nb && !best.empty() && tr[i].empty()) return {"trace-incomplete", at + "no trace of \"" + best + "\""};
        for (auto& kv : tr[i]) {
          Rebuild rb{kv.second, w.factors, w.cfg, 0, ""}; Built b = rb.Go(); std::string me = at + "trace of translation " + N(kv.first) + ": "; if (rb.bad.empty() && rb.i != kv.second.size()) rb.bad = N(kv.second.size() - rb.i) + " rules are left over"; if (!rb.bad.empty()) return {"trace-is-no-derivation", me + rb.bad};
          std::string said = has_nb ? n[kv.first].words : best; if (Strip(Sides(b.w, w.factors)) != said) return {"trace-translates-otherwise", me + "it gives \"" + Sides(b.w, w.factors) + "\", printed was \"" + said + "\""};
          if ((!w.cfg && b.src != w.words[i]) || b.l != 0 || b.r != (int)w.words[i].size()) return {"trace-covers-otherwise", me + "it covers [" + N(b.l) + ", " + N(b.r) + "] \"" + Join(b.src) + "\""};
          if (has_nb) { Feat s; for (auto& t : kv.second) Add(s, t.f); if (!Same(s, n[kv.first].f)) return {"trace-features-differ", me + Show(s) + ", the list has " + Show(n[kv.first].f)}; }
          g_env.Reach("trace_rebuilt");
        }
      }
      if (wtree && !ctrg && !w.tree[i].empty()) for (auto& e : n) { if (Strip(e.tree) != w.tree[i]) return {"nbest-tree-differs", at + "the tree of \"" + e.words + "\" is " + e.tree + ", the input " + w.tree[i]}; g_env.Reach("nbest_tree_compared"); }
      if (!has_fo) continue;
      DecForest f; std::string why = ReadForest(fl[i], blind, &f); if (!why.empty()) return {"bad-forest", at + why};
      if (f.words != w.words[i] && !(f.n.empty() && f.words.empty())) return {"forest-words-differ", at + "the forest has \"" + Join(f.words) + "\""};
      if (f.n.empty() || f.n[0].edges.empty()) { if (!best.empty() || !n.empty()) return {"forest-empty", at + "the forest has no derivation of \"" + best + "\""}; continue; }
      if (f.n[0].l != 0 || f.n[0].r != (int)f.words.size()) return {"forest-root-wrong", at + "the first node covers [" + N(f.n[0].l) + ", " + N(f.n[0].r) + ")"};
      for (size_t k = 0; k < f.e.size(); ++k) { const FE& e = f.e[k]; if (!Same(Dot(e.f, w.weights), e.score)) return {"forest-score-wrong", at + "edge " + N(k) + " has score " + std::to_string(e.score) + ", its features " + Show(e.f) + " give " + std::to_string(Dot(e.f, w.weights))}; for (int t : e.tails) if (f.n[t].l < f.n[e.head].l || f.n[t].r > f.n[e.head].r) return {"forest-spans-wrong", at + "edge " + N(k) + " puts [" + N(f.n[t].l) + ", " + N(f.n[t].r) + ") below [" + N(f.n[e.head].l) + ", " + N(f.n[e.head].r) + ")"}; }
      Unfold u{f, w.factors, {}, {}, ""}; std::vector<FD> ds;
      try { ds = u.At(0); } catch (TooMany&) { g_env.Reach("forest_too_large"); continue; }
      if (!u.bad.empty()) return {"forest-is-circular", at + u.bad}; if (ds.empty()) return {"forest-empty", at + "no derivation of \"" + best + "\" is complete"};
      for (auto& d : ds) if (!blind && d.src != f.words) return {"forest-covers-otherwise", at + "a derivation of the forest covers \"" + Join(d.src) + "\""};
      std::sort(ds.begin(), ds.end(), [](const FD& a, const FD& b) { return a.s > b.s; });
      for (auto& kv : u.memo) { const FN& nd = f.n[kv.first]; if (!nd.has_vit || kv.second.empty()) continue; double m = -1e300; for (auto& d : kv.second) m = std::max(m, d.s); if (!Same(m, nd.vit)) return {"forest-viterbi-wrong", at + "node " + N(kv.first) + " says its best score is " + std::to_string(nd.vit) + ", it is " + std::to_string(m)}; g_env.Reach("node_best_score_checked"); }
      bool top = false; for (auto& d : ds) if (Same(d.s, ds[0].s) && Strip(Sides(d.w, w.factors)) == best) top = true; if (!top) return {"forest-best-differs", at + "the best derivation of the forest is \"" + Sides(ds[0].w, w.factors) + "\" with " + std::to_string(ds[0].s) + ", printed was \"" + best + "\""};
      if (w.trim) {
        size_t last = std::min<size_t>(w.trim, ds.size()) - 1; std::set<int> used; for (auto& d : ds) if (d.s > ds[last].s || Same(d.s, ds[last].s)) used.insert(d.edges.begin(), d.edges.end());
        if (used.size() != f.e.size()) return {"forest-not-trimmed", at + N(f.e.size() - used.size()) + " of " + N(f.e.size()) + " edges are in none of the " + N(w.trim) + " best derivations"}; g_env.Reach("trimming_checked");
      }
      if (!has_nb) continue;
      if (w.uniq) { std::set<std::string> seen; std::vector<FD> k; for (auto& d : ds) if (seen.insert(Sides(d.w, w.factors)).second) k.push_back(d); if (!w.trim) { if (n.size() != std::min<size_t>(w.nbest, k.size())) return {"forest-and-list-differ", at + "the list has " + N(n.size()) + " entries of at most " + N(w.nbest) + ", the forest " + N(k.size()) + " different translations"}; for (size_t q = 0; q < n.size(); ++q) if (!Same(n[q].score, k[q].s)) return {"forest-and-list-differ", at + "entry " + N(q) + " has score " + std::to_string(n[q].score) + ", the forest's next is \"" + Sides(k[q].w, w.factors) + "\" with " + std::to_string(k[q].s)}; g_env.Reach("unique_list_compared"); } continue; }
      size_t need = std::min<size_t>(w.nbest, ds.size()); if (w.trim) need = std::min<size_t>(need, w.trim); if (n.size() < need || (!w.trim && n.size() != need)) return {"forest-and-list-differ", at + "the list has " + N(n.size()) + " entries of at most " + N(w.nbest) + ", the forest " + N(ds.size()) + " derivations"};
      std::vector<char> took(ds.size(), 0);
      for (size_t q = 0; q < need; ++q) {
        if (!Same(n[q].score, ds[q].s)) return {"forest-and-list-differ", at + "entry " + N(q) + " has score " + std::to_string(n[q].score) + ", the forest's next is \"" + Sides(ds[q].w, w.factors) + "\" with " + std::to_string(ds[q].s)};
        bool hit = false; for (size_t k = 0; k < ds.size() && !hit; ++k) if (!took[k] && Same(ds[k].s, n[q].score) && Strip(Sides(ds[k].w, w.factors)) == n[q].words && Same(ds[k].f, n[q].f)) took[k] = hit = true;
        if (!hit) return {"forest-and-list-differ", at + "entry " + N(q) + " \"" + n[q].words + "\" with features " + Show(n[q].f) + " is no derivation of the forest"};
      }
      g_env.Reach("list_compared_with_forest");
    }
    return v;
  }
};
Reg r1(new ExplainProp);
}
