// Conversion of trees and forests between formats, and the transformations on the way (splitting,
// compound splitting, binarising, flattening, casing), against transformations written from the documentation.
#include "js.h"
#include "jobs.h"
#include "lmref.h"
#include "forest.h"
#include <algorithm>
#include <cmath>
#include <string.h>
using namespace dsim;
int tree_converter_main(int, char**);
namespace {
struct TreeW : Workload {
  Job j; bool usable = false; std::string in, out, bad; std::vector<Forest> want; std::vector<char> refuse; bool bin = false;
  std::string Describe() { return j.what; }
};
bool Terminal(const Forest& f, int v) { return f.n[v].edges.empty(); }
// ---- transformations
const std::set<std::string>& Brackets() { static const std::set<std::string> s = {"-LRB-", "-RRB-", "-lrb-", "-rrb-", "-LSB-", "-RSB-", "-lsb-", "-rsb-", "-LCB-", "-RCB-", "-lcb-", "-rcb-"}; return s; }
struct Splits { std::string chars; bool run; };                    // a regular expression: one of (or a run of) these characters
SV CutChars(const std::string& w, const Splits& s) {
  SV o; std::string cur; for (size_t i = 0; i < w.size();) { if (s.chars.find(w[i]) == std::string::npos) { cur += w[i++]; continue; } if (!cur.empty()) o.push_back(cur); cur.clear(); size_t e = i + 1; if (s.run) while (e < w.size() && s.chars.find(w[e]) != std::string::npos) ++e; o.push_back(w.substr(i, e - i)); i = e; }
  if (!cur.empty()) o.push_back(cur); return o;
}
struct Compound { std::map<std::string, float> uni; SV fill; size_t minchar; float thresh; };
SV CutCompound(const std::string& w, const Compound& c) {
  SV best = {w}; auto own = c.uni.find(w); bool known = own != c.uni.end(); float u = known ? own->second : -99, top = u;
  if (w.size() <= 2 * c.minchar || (known && !(u < c.thresh))) return best;
  for (size_t i = c.minchar; i + c.minchar <= w.size(); ++i) for (auto& f : c.fill) {
    if (w.compare(i, f.size(), f)) continue; std::string a = w.substr(0, i), b = w.substr(i + f.size()); if (b.size() < c.minchar) continue;
    auto x = c.uni.find(a), y = c.uni.find(b); if (x == c.uni.end() || y == c.uni.end()) continue;
    float m = (x->second + y->second) / 2.0; if (m > top) { top = m; best = {a, b}; g_env.Reach("compound"); }
  }
  return best;
}
template <class F> Forest SplitWords(const Forest& f, F cut) {
  Forest g = f; g.words.clear(); std::vector<int> at; std::vector<SV> pieces;
  for (auto& w : f.words) { at.push_back(g.words.size()); pieces.push_back(Brackets().count(w) ? SV(1, w) : cut(w)); for (auto& p : pieces.back()) g.words.push_back(p); }
  at.push_back(g.words.size()); if (g.words.size() == f.words.size()) return f;
  for (size_t v = 0; v < f.n.size(); ++v) { g.n[v].l = at[f.n[v].l]; g.n[v].r = at[f.n[v].r]; }
  std::map<std::pair<int, std::string>, std::vector<int>> made;
  for (size_t e = 0; e < f.e.size(); ++e) {
    int h = f.e[e].head, t = f.e[e].tails.size() == 1 ? f.e[e].tails[0] : -1; if (t < 0 || !Terminal(f, t) || pieces[f.n[t].l].size() == 1) continue;
    auto& m = made[{f.n[t].l, f.n[h].sym}]; if (m.empty()) for (size_t k = 0; k < pieces[f.n[t].l].size(); ++k) { int p = at[f.n[t].l] + k; int a = g.n.size(); g.n.push_back({f.n[h].sym, p, p + 1, {}}); g.n.push_back({g.words[p], p, p + 1, {}}); g.e.push_back({a, {a + 1}, 0}); g.n[a].edges.push_back(g.e.size() - 1); m.push_back(a); }
    g.e[e].tails = m;
  }
  g_env.Reach("split"); return g;
}
Forest Flatten(const Forest& f) {
  Forest g = f; bool any = false;
  for (size_t v = 0; v < g.n.size(); ++v) while (g.n[v].edges.size() == 1) {
    Ed u = g.e[g.n[v].edges[0]]; if (u.tails.size() != 1 || Terminal(g, u.tails[0])) break; const Nd c = g.n[u.tails[0]]; any = true;
    g.n[v].sym += "_" + c.sym; g.n[v].edges.clear(); for (int e : c.edges) { Ed x = g.e[e]; x.head = v; x.score += u.score; g.n[v].edges.push_back(g.e.size()); g.e.push_back(x); }
  }
  if (any) g_env.Reach("flattened"); return g;
}
struct Case { std::string how; std::map<std::string, std::string> truth; };
std::string Low(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == 0xC3 && i + 1 < s.size() && (unsigned char)s[i + 1] >= 0x80 && (unsigned char)s[i + 1] < 0x9F) { o += s[i]; o += (char)(s[i + 1] + 0x20); ++i; } else o += c >= 'A' && c <= 'Z' ? (char)(c + 32) : (char)c; } return o; }
std::string Title(const std::string& s) { std::string o = Low(s); bool first = true; for (size_t i = 0; i < o.size(); ++i) { unsigned char c = o[i]; if (c == 0xC3 && i + 1 < o.size()) { if (first) o[i + 1] -= 0x20; first = false; ++i; } else if (c >= 'a' && c <= 'z') { if (first) o[i] -= 32; first = false; } else if (!isdigit(c)) first = true; } return o; }
Forest Cased(const Forest& f, const Case& c) {
  if (c.how == "none") return f; static const std::set<std::string> ends = {".", ":", "!", "?"}, delay = {"(", "[", "\"", "'", "`", "``"};
  Forest g = f; bool start = true; for (size_t i = 0; i < g.words.size(); ++i) {
    bool first = false; std::string& w = g.words[i]; if (ends.count(w)) start = true; else if (!delay.count(w)) { first = start; start = false; } if (!i) first = true;
    if (c.how == "low") w = Low(w); else if (first && c.how == "title") w = Title(w); else if (first) { auto it = c.truth.find(Low(w)); if (it != c.truth.end()) w = it->second; }
  }
  for (size_t v = 0; v < g.n.size(); ++v) if (Terminal(g, v)) g.n[v].sym = g.words[g.n[v].l];
  if (g.words != f.words) g_env.Reach("cased_" + c.how); return g;
}
Forest Normalise(const Forest& f) { Forest g = f; for (auto& n : g.n) { double z = 0; for (int e : n.edges) z += std::exp(f.e[e].score); for (int e : n.edges) g.e[e].score -= std::log(z); } return g; }
// ---- formats
std::string Num(double x) { char b[32]; snprintf(b, sizeof b, "%g", x); return b; }
std::string ToRule(const Forest& f, int v) { const Nd& n = f.n[v]; if (n.edges.empty()) return '"' + f.words[n.l] + '"'; std::string s = n.sym + " ( "; for (int t : f.e[n.edges[0]].tails) s += ToRule(f, t) + " "; return s + ")"; }
std::string ToPenn(const Forest& f, int v) { const Nd& n = f.n[v]; if (n.edges.empty()) return f.words[n.l]; std::string s = "(" + n.sym; for (int t : f.e[n.edges[0]].tails) s += " " + ToPenn(f, t); return s + ")"; }
std::string Xml(const std::string& s) { std::string o; for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '"': o += "&quot;"; break; case '\'': o += "&apos;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; default: o += c; } return o; }
std::string ToXml(const Forest& f, int v) { const Nd& n = f.n[v]; if (n.edges.empty()) return Xml(f.words[n.l]); std::string s = "<tree label=\"" + Xml(n.sym) + "\">"; for (int t : f.e[n.edges[0]].tails) s += " " + ToXml(f, t); return s + " </tree>"; }
std::vector<char> Used(const Forest& f) { std::vector<char> u(f.n.size(), 0); std::vector<int> todo; if (!f.n.empty()) { u[0] = 1; todo.push_back(0); } while (!todo.empty()) { int v = todo.back(); todo.pop_back(); for (int e : f.n[v].edges) for (int t : f.e[e].tails) if (!u[t]) { u[t] = 1; todo.push_back(t); } } return u; }
bool Packed(const Forest& f) { auto u = Used(f); for (size_t v = 0; v < f.n.size(); ++v) if (u[v] && f.n[v].edges.size() > 1) return true; return false; }
std::string EgretNode(const Forest& f, int v) { const Nd& n = f.n[v]; return n.edges.empty() ? n.sym : n.sym + "[" + N(n.l) + "," + N(n.r - 1) + "]"; }
// egret names a node by its symbol and span; a word under a node of more words has no position of its own
bool EgretCan(const Forest& f, bool read) {
  auto u = Used(f); std::set<std::string> s; for (size_t v = 0; v < f.n.size(); ++v) { if (!u[v] || f.n[v].edges.empty()) continue; if (!s.insert(EgretNode(f, v)).second) return false; for (int e : f.n[v].edges) { if (f.e[e].tails.empty()) return false; for (int t : f.e[e].tails) if (Terminal(f, t) && f.e[e].tails.size() > 1 && read) return false; } }
  return true;
}
std::string EgretLine(const Forest& f, const Ed& e) { std::string s = EgretNode(f, e.head) + " =>"; for (int t : e.tails) s += " " + EgretNode(f, t); return s; }
std::string ToEgret(const Forest& f) {
  std::string s = "sentence :\n" + Join(f.words) + "\n"; if (f.e.empty()) return s + "\n\n";
  for (size_t k = f.e.size(); k-- > 0;) s += EgretLine(f, f.e[k]) + " ||| " + Num(f.e[k].score) + "\n"; return s + "\n";
}
// do two forests, from these two nodes, stand for the same thing; score differences are compared on their own
struct Same {
  const Forest &a, &b; std::map<std::pair<int, int>, int> memo; std::string why;
  bool Go(int x, int y) {
    auto it = memo.find({x, y}); if (it != memo.end()) return it->second; memo[{x, y}] = 0; const Nd &p = a.n[x], &q = b.n[y];
    if (p.sym != q.sym || p.l != q.l || p.r != q.r || p.edges.size() != q.edges.size()) { if (why.empty()) why = p.sym + "[" + N(p.l) + "," + N(p.r) + ") with " + N(p.edges.size()) + " edges is " + q.sym + "[" + N(q.l) + "," + N(q.r) + ") with " + N(q.edges.size()); return false; }
    std::vector<char> used(q.edges.size(), 0);
    for (int e : p.edges) { bool hit = false; for (size_t k = 0; k < q.edges.size() && !hit; ++k) { if (used[k]) continue; const Ed &s = a.e[e], &t = b.e[q.edges[k]]; if (s.tails.size() != t.tails.size() || !(std::fabs(s.score - t.score) <= 1e-4 + 1e-4 * std::fabs(s.score))) continue; bool ok = true; for (size_t m = 0; m < s.tails.size() && ok; ++m) ok = Go(s.tails[m], t.tails[m]); if (ok) { used[k] = 1; hit = true; } } if (!hit) { if (why.empty()) why = "no edge of " + p.sym + "[" + N(p.l) + "," + N(p.r) + ") is <" + EgretLine(a, a.e[e]) + " ||| " + Num(a.e[e].score) + ">"; return false; } }
    return memo[{x, y}] = 1;
  }
};
std::string ReadJson(const std::string& s, Forest* f, bool feats) {
  JsReader rd{s}; Js top = rd.Value(); rd.Space(); if (rd.bad || rd.i != s.size() || top.type != '{') return "not valid JSON near character " + N(rd.i);
  const Js *ns = top.Get("nodes"), *es = top.Get("edges"), *ws = top.Get("words"); if (!ns || !es || !ws) return "nodes, edges or words are missing";
  for (auto& v : ws->kids) f->words.push_back(v.second.s);
  for (auto& v : ns->kids) { const Js *id = v.second.Get("id"), *sym = v.second.Get("sym"), *span = v.second.Get("span"); if (!id || !sym || sym->type != 's' || !span || span->kids.size() != 2) return "a node is incomplete"; if (id->s != N(f->n.size())) return "nodes are not numbered in order"; f->n.push_back({sym->s, atoi(span->kids[0].second.s.c_str()), atoi(span->kids[1].second.s.c_str()), {}}); }
  for (auto& v : es->kids) {
    const Js *id = v.second.Get("id"), *head = v.second.Get("head"), *sc = v.second.Get("score"), *t = v.second.Get("tails"), *ft = v.second.Get("features"); if (!id || id->s != N(f->e.size())) return "edges are not numbered in order"; Ed e; e.head = head ? atoi(head->s.c_str()) : -1; e.score = sc ? atof(sc->s.c_str()) : 0; if (t) for (auto& x : t->kids) e.tails.push_back(atoi(x.second.s.c_str()));
    if (e.head < 0 || e.head >= (int)f->n.size()) return "an edge has no head"; for (int t : e.tails) if (t < 0 || t >= (int)f->n.size()) return "an edge has a tail that does not exist";
    double p = 0; if (ft) for (auto& x : ft->kids) { if (x.first != "parse" || !feats) return "unexpected feature " + x.first; p = atof(x.second.s.c_str()); } if (feats && std::fabs(p - e.score) > 1e-4 + 1e-4 * std::fabs(p)) return "the parse score " + Num(e.score) + " and its feature " + Num(p) + " differ";
    f->n[e.head].edges.push_back(f->e.size()); f->e.push_back(e);
  }
  return "";
}
struct TreeProp : Prop {
  const char* Name() { return "tree-conversion-exact"; }
  static void Mix(Rng& r, Forest* f) {      // words beside phrases, which only some formats can have
    for (auto& e : f->e) for (int& t : e.tails) { const Nd& n = f->n[t]; if (e.tails.size() > 1 && n.edges.size() == 1 && f->e[n.edges[0]].tails.size() == 1 && Terminal(*f, f->e[n.edges[0]].tails[0]) && r.chance(0.3)) t = f->e[n.edges[0]].tails[0]; }
    Forest g; g.words = f->words; auto u = Used(*f); std::vector<int> to(f->n.size(), -1); for (size_t v = 0; v < u.size(); ++v) if (u[v]) { to[v] = g.n.size(); g.n.push_back(f->n[v]); g.n.back().edges.clear(); }
    for (auto e : f->e) if (u[e.head]) { e.head = to[e.head]; for (int& t : e.tails) t = to[t]; g.n[e.head].edges.push_back(g.e.size()); g.e.push_back(e); } *f = g;
  }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<TreeW>(new TreeW); TreeW& x = *w; Job& j = x.j; bool ok = true;
    static const char* ins[] = {"penn", "penn", "json", "json", "egret", "egret", "rule", "word"}; static const char* outs[] = {"penn", "json", "json", "egret", "egret", "rule", "word", "mosesxml"};
    x.in = ins[r.below(8)]; x.out = outs[r.below(8)];
    Splits sp; bool split = r.chance(0.3); if (split) { static const char* c[] = {"-", "-/", "/", "-_."}; sp.chars = c[r.below(4)]; sp.run = r.chance(0.4); }
    bool comp = r.chance(0.2), flat = r.chance(0.35); static const char* bins[] = {"left", "right", "leftrp", "rightrp", "cky"}; std::string bin = r.chance(0.35) ? bins[r.below(5)] : "none";
    Case cs; static const char* cases[] = {"low", "title", "true"}; cs.how = r.chance(0.4) ? cases[r.below(3)] : "none";
    SV vocab; for (int i = r.range(2, 6); i > 0; --i) vocab.push_back((r.chance(0.3) ? "S" : "s") + N(r.range(0, 9)));
    for (int i = r.range(1, 4); i > 0; --i) { static const char* c[] = {"The", "the", "THE", "mcDon", "\xc3\x84rger", "\xc3\xa9t\xc3\xa9", "iOS", "x\"y", "a\\b", "<b>", "R&D", "q'"}; vocab.push_back(c[r.below(12)]); }
    for (int i = r.range(0, 3); i > 0; --i) { static const char* c[] = {".", ":", "!", "?", "[", "\"", "'", "`", "``", ","}; vocab.push_back(c[r.below(10)]); }
    if (split || r.chance(0.2)) for (int i = r.range(1, 4); i > 0; --i) { static const char* c[] = {"a-b", "A--b", "-", "--", "-c", "c-", "x/y", "x-y/z", "-LRB-", "-rsb-", "-LRB", "1-2-3", "and/or", "ie-_.g", "-/-"}; vocab.push_back(c[r.below(15)]); }
    Compound cp; std::string arpa; if (comp) {
      SV parts; for (int i = r.range(3, 6); i > 0; --i) { static const char* c[] = {"auto", "bahn", "arbeit", "tier", "ab", "c", "hof", "es", "bahnhof", "s"}; parts.push_back(c[r.below(10)]); } static const char* fs[] = {"", "s", "es", "s:es", "es:s", "e:s:", "n"}; std::string fl = fs[r.below(7)]; cp.fill = Split(fl, ":"); cp.fill.push_back("");
      cp.minchar = r.range(1, 4); double th[] = {0.01, 0.0001, 0.3, 1.0}; double t = th[r.below(4)]; cp.thresh = log10((float)t);
      for (int i = r.range(2, 5); i > 0; --i) { std::string a = parts[r.below(parts.size())] + (r.chance(0.4) ? cp.fill[r.below(cp.fill.size())] : "") + parts[r.below(parts.size())]; if (r.chance(0.2)) a += parts[r.below(parts.size())]; vocab.push_back(a); }
      std::map<std::string, std::string> u; for (auto& p : parts) if (r.chance(0.9)) u[p]; for (auto& p : vocab) if (r.chance(0.3)) u[p]; std::string body; long n = 3; body += "-1\t<unk>\n-99\t<s>\t-0.5\n-0.8\t</s>\n"; for (auto& p : u) { p.second = r.chance(0.2) ? "-1.5" : "-" + N(r.range(0, 4)) + "." + N(r.range(1, 99999)); cp.uni[p.first] = strtof(p.second.c_str(), 0); body += p.second + "\t" + p.first + "\t-0.3\n"; ++n; }
      if (cp.uni.empty()) comp = false; arpa = "\\data\\\nngram 1=" + N(n) + "\nngram 2=1\n\n\\1-grams:\n" + body + "\n\\2-grams:\n-0.2\t<s> </s>\n\n\\end\\\n";
      if (comp) { j.files["lm"] = arpa; for (const char* k : {"-compoundsplit", "@/lm"}) j.args.push_back(k); for (auto q : {std::make_pair("-compoundsplit_minchar", N(cp.minchar)), std::make_pair("-compoundsplit_threshold", Num(t)), std::make_pair("-compoundsplit_filler", fl)}) { if (q.second.empty()) continue; j.args.push_back(q.first); j.args.push_back(q.second); } }
    }
    if (split) { j.args.push_back("-split"); std::string e = sp.chars.size() == 1 ? sp.chars : "[" + sp.chars.substr(1) + "-]"; if (sp.chars == "-_.") e = r.chance(0.5) ? "[_.-]" : "(-|_|\\.)"; j.args.push_back(e + (sp.run ? "+" : "")); }
    if (cs.how == "true") { std::string m; for (auto& v : vocab) if (r.chance(0.5)) { std::string t = r.chance(0.5) ? v : r.chance(0.5) ? Low(v) : Title(v); cs.truth[Low(t)] = t; m += t + (r.chance(0.2) ? " 3" : "") + "\n"; } j.files["true"] = m; }
    auto opt = [&](const char* k, const std::string& v) { j.args.push_back(k); j.args.push_back(v); };
    if (x.in != "penn" || r.chance(0.5)) opt("-input_format", x.in); if (x.out != "penn" || r.chance(0.5)) opt("-output_format", x.out); if (bin != "none") opt("-binarize", bin); if (flat) opt("-flatten", "true"); if (cs.how != "none") opt("-case", cs.how == "true" ? "true:model=@/true" : cs.how);
    std::string src; int ns = r.range(1, 6); x.bin = bin != "none"; long nodes = 0;
    for (int s = 0; s < ns; ++s) {
      Forest f; bool fail = r.chance(0.06) && x.in != "rule" && x.in != "word"; bool big = r.chance(0.12); int nw = big ? r.range(8, 25) : r.range(x.in == "word" ? 0 : 1, 7);
      ForestOpt o; o.words = std::max(1, nw); o.packed = (x.in == "json" || x.in == "egret") && r.chance(big ? 0.1 : 0.7); o.flat = r.chance(big ? 0.5 : 0.2); o.scores = o.packed ? r.chance(0.7) : x.in == "egret" || (x.in == "json" && r.chance(0.4)); SV ws; for (int i = 0; i < nw; ++i) ws.push_back(vocab[r.below(vocab.size())]);
      if (x.in == "word") { f.words = ws; f.n.push_back({"X", 0, nw, {0}}); f.e.push_back({0, {}, 0}); for (int i = 0; i < nw; ++i) { int k = f.n.size(); f.e[0].tails.push_back(k); f.n.push_back({"X", i, i + 1, {(int)f.e.size()}}); f.n.push_back({ws[i], i, i + 1, {}}); f.e.push_back({k, {k + 1}, 0}); } src += Join(ws) + "\n"; }
      else if (fail) { if (x.in != "penn") f.words = ws; if (x.in == "penn") src += "()\n"; else if (x.in == "json") src += ForestJson(f) + "\n"; else src += ToEgret(f); }
      else {
        int tries = 0; do { f = MakeForest(r, o); f.words = ws; for (size_t v = 0; v < f.n.size(); ++v) if (Terminal(f, v)) f.n[v].sym = ws[f.n[v].l]; if ((x.in == "rule" || x.in == "json") && !split && !comp && r.chance(0.2)) Mix(r, &f); } while (x.in == "egret" && !EgretCan(f, true) && ++tries < 30); if (tries == 30) { ok = false; break; }
        if (x.in == "json" && r.chance(0.4) && x.out != "egret") ShuffleForest(r, &f);
        if (x.in == "penn") { std::string p = ForestPenn(f); if (r.chance(0.3)) { std::string q; for (char c : p) { if (c != ' ') q += c; else { static const char* sp[] = {" ", "  ", "\n ", "\t"}; q += sp[r.below(4)]; } } p = q; } src += p + (r.chance(0.05) ? "\n\n" : "\n"); }
        else if (x.in == "rule") src += ToRule(f, 0) + "\n"; else if (x.in == "json") src += ForestJson(f) + "\n"; else { src += ToEgret(f); f = Normalise(f); }
      }
      if (split) f = SplitWords(f, [&](const std::string& q) { return CutChars(q, sp); });
      if (comp) f = SplitWords(f, [&](const std::string& q) { return CutCompound(q, cp); });
      // known: this binariser loses the root unless the first edge read is the root's and is kept whole
      if (bin == "cky" && !f.e.empty()) { const Ed& e = f.e[0]; if (e.head != 0 || (e.tails.size() > 2 && e.tails.size() <= 7)) { ok = false; } }
      bool clash = false; f = BinarizeForest(f, bin, &clash); if (clash) { ok = false; break; }
      if (flat) f = Flatten(f); f = Cased(f, cs); nodes += f.n.size();
      if (x.out == "egret" && !EgretCan(f, false)) { ok = false; break; }
      x.want.push_back(f); x.refuse.push_back((x.out == "penn" || x.out == "rule" || x.out == "mosesxml") && Packed(f));
    }
    if (ok && x.in != "word" && x.in != "egret" && r.chance(0.05) && src.size() > 3) {   // the writer of this file died, or put something wrong in it
      size_t from = src.find_last_of('\n', src.size() - 2); from = from == std::string::npos ? 0 : from + 1; if (x.in == "penn") { size_t d = 0, last = 0; for (size_t i = 0; i < src.size(); ++i) { if (src[i] == '(') { if (!d) last = i; ++d; } else if (src[i] == ')') --d; } from = last; }
      size_t end = src.find_last_not_of("\n") ; if (end > from + 1) { src.resize(r.range(from + 1, end)); x.bad = "truncated"; }
      if (x.in == "rule") { size_t e = src.find_last_not_of(" \n"); if (e == std::string::npos || src.compare(from, std::string::npos, "") == 0) x.bad = "?"; }
    } else if (ok && (x.in == "penn" || x.in == "rule") && r.chance(0.03)) { src += r.chance(0.5) ? ")\n" : x.in == "penn" ? "s0\n" : "S s0 )\n"; x.bad = "stray"; }
    if (ok && x.bad.empty() && x.in == "penn" && r.chance(0.06)) { std::vector<size_t> pos; for (size_t i = 1; i < src.size(); ++i) if (src[i] == ')' && !strchr(" ()\n\t", src[i - 1])) pos.push_back(i); if (!pos.empty()) { src.insert(pos[r.below(pos.size())], r.chance(0.3) ? "(y z)" : r.chance(0.5) ? "(y)" : "(y"); x.bad = "glued"; } }   // a bracket opened inside a word
    if (x.bad == "?") ok = false;
    j.tool = "tree-converter"; j.fn = tree_converter_main; j.files["src"] = src; if (r.chance(0.5)) j.args.push_back("@/src"); else j.stdin_file = "src";
    j.what = "tree-converter " + Join(j.args) + " trees=" + N(ns) + " nodes=" + N(nodes) + (x.bad.empty() ? "" : " " + x.bad); x.usable = ok; JobPrepare(j, g_env.scratch);
    if (ok) { g_env.Reach("in_" + x.in); g_env.Reach("out_" + x.out); if (bin != "none") g_env.Reach("binarize_" + bin); }
    return std::unique_ptr<Workload>(w.release());
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { if (!((TreeW&)ww).usable || k >= 2) return false; p = Plain(); if (k) RandomBenignIo(r, p); return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    TreeW& x = (TreeW&)ww; JobResult got; o = JobRun(x.j, p, g_env.scratch, 0, &got); Violation v = Universal(o, false); if (v.bad()) return v;
    size_t stop = x.want.size(); for (size_t i = stop; i-- > 0;) if (x.refuse[i]) stop = i;
    if (stop < x.want.size() || !x.bad.empty()) { if (o.ok_exit()) return {x.bad.empty() ? "ambiguous-accepted" : "malformed-accepted", x.bad.empty() ? "sentence " + N(stop + 1) + " is a forest, which " + x.out + " cannot express" : "the converter accepted a " + x.bad + " file"}; g_env.Reach(x.bad.empty() ? "forest_refused" : x.bad == "truncated" ? "truncated_refused" : x.bad == "glued" ? "glued_refused" : "stray_refused"); return v; }
    if (!o.ok_exit()) return {"converter-failed", "the converter ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    SV l = Lines(ReadFile(g_env.scratch + "/stdout")); size_t at = 0;
    for (size_t i = 0; i < x.want.size(); ++i) {
      const Forest& f = x.want[i]; std::string where = "sentence " + N(i + 1) + ": "; if (at >= l.size()) return {"tree-lost", N(x.want.size()) + " trees went in and " + N(i) + " came out"};
      if (x.out == "egret") {
        if (at + 1 >= l.size() || l[at] != "sentence :" || l[at + 1] != Join(f.words)) return {"tree-differs", where + "should start with the words <" + Join(f.words) + ">, not <" + Clip(l[std::min(at + 1, l.size() - 1)]) + ">"};
        at += 2; auto u = Used(f); std::map<std::string, std::vector<double>> w; for (auto& e : f.e) if (u[e.head]) { bool in = false; for (int k : f.n[e.head].edges) if (&f.e[k] == &e) in = true; if (in) w[EgretLine(f, e)].push_back(e.score); } std::set<std::string> have; std::string last;
        for (; at < l.size() && !l[at].empty(); ++at) { size_t b = l[at].rfind(" ||| "); if (b == std::string::npos) return {"tree-differs", where + "malformed line <" + Clip(l[at]) + ">"}; last = l[at].substr(0, b); double s = atof(l[at].c_str() + b + 5); auto it = w.find(last); if (it == w.end()) return {"tree-differs", where + "<" + Clip(l[at]) + "> is not in the tree"}; bool hit = false; for (double q : it->second) if (std::fabs(q - s) <= 1e-4 + 1e-4 * std::fabs(q)) hit = true; if (!hit) return {"score-differs", where + "<" + Clip(l[at]) + "> should score " + Num(it->second[0])}; have.insert(last); }
        for (auto& q : w) if (!have.count(q.first)) return {"tree-differs", where + "<" + q.first + "> is missing"};
        if (!w.empty() && last.compare(0, EgretNode(f, 0).size() + 1, EgretNode(f, 0) + " ")) return {"root-differs", where + "the last line <" + last + "> is not for the root " + EgretNode(f, 0)};
        ++at; if (f.n.empty()) { if (at >= l.size() || !l[at].empty()) return {"tree-differs", where + "a failed parse ends with two empty lines"}; ++at; } continue;
      }
      const std::string& s = l[at++]; std::string w;
      if (x.out == "json") {
        Forest g; std::string e = ReadJson(s, &g, x.in == "egret"); if (!e.empty()) return {"tree-malformed", where + e + ": <" + Clip(s, 200) + ">"}; if (g.words != f.words) return {"tree-differs", where + "the words are <" + Join(g.words) + ">, not <" + Join(f.words) + ">"};
        if (f.n.empty() != g.n.empty()) return {"tree-differs", where + "an empty tree is no longer empty, or the reverse"}; if (f.n.empty()) continue; Same q{f, g, {}, ""}; if (!q.Go(0, 0)) return {"tree-differs", where + q.why + " in <" + Clip(s, 300) + ">"}; continue;
      }
      if (x.out == "word") w = Join(f.words); else if (x.out == "penn") w = f.n.empty() ? "()" : ToPenn(f, 0); else if (x.out == "rule") w = f.n.empty() ? "" : ToRule(f, 0); else w = f.n.empty() ? Join(f.words) : ToXml(f, 0);
      if (s != w) return {"tree-differs", where + FirstDiff(w, s)};
    }
    if (at != l.size()) return {"tree-extra", N(x.want.size()) + " trees went in, but the output goes on: <" + Clip(l[at]) + ">"};
    g_env.Reach("judged"); return v;
  }
};
Reg r24(new TreeProp);
}
