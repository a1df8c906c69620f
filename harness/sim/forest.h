// Random trees and packed forests in the formats travatar reads, and reference binarisation.
#pragma once
#include "prop.h"
#include <set>
#include <map>
struct Nd { std::string sym; int l, r; std::vector<int> edges; };          // no edges: a word
struct Ed { int head; std::vector<int> tails; double score; };
struct Forest { std::vector<Nd> n; std::vector<Ed> e; std::vector<std::string> words; };
struct ForestOpt { int words = 3; bool packed = false, flat = false, scores = false, target = false; };
struct ForestMaker {
  dsim::Rng& r; const ForestOpt& o; Forest f; std::map<std::pair<int, int>, std::vector<int>> done;
  std::string Sym(bool pre) { static const char* s[] = {"S", "NP", "VP", "X", "PP"}; static const char* p[] = {"N", "V", ".", ",", "$,", "D", ":"}; return pre ? p[r.below(7)] : s[r.below(5)]; }
  double Score() { return o.scores ? -r.range(1, 300) / 100.0 : 0; }
  int Node(const std::string& s, int a, int b) { f.n.push_back({s, a, b, {}}); return f.n.size() - 1; }
  void Edge(int h, const std::vector<int>& t) { f.e.push_back({h, t, Score()}); f.n[h].edges.push_back(f.e.size() - 1); }
  std::vector<int> Cut(int a, int b, int k) { std::set<int> c; while ((int)c.size() < k - 1) c.insert(r.range(a + 1, b - 1)); std::vector<int> v(1, a); v.insert(v.end(), c.begin(), c.end()); v.push_back(b); return v; }
  void Split(int h, int a, int b, int depth) {
    if (b - a == 1 || (depth < 4 && r.chance(0.12))) { int c = Build(a, b, depth + 1); Edge(h, {c}); return; }
    int k = o.flat && b - a >= 8 && r.chance(0.6) ? std::min(b - a, r.range(6, 8)) : o.flat && r.chance(0.6) ? b - a : std::min(b - a, r.range(2, r.chance(0.3) ? 5 : 3)); std::vector<int> c = Cut(a, b, k), t; for (int i = 0; i < k; ++i) t.push_back(Build(c[i], c[i + 1], depth + 1)); Edge(h, t);
  }
  int Build(int a, int b, int depth) {
    auto& d = done[{a, b}]; if (o.packed && !d.empty() && r.chance(0.7)) return d[r.below(d.size())];
    int h;
    if (b - a == 1 && !(depth < 4 && r.chance(0.2))) { h = Node(Sym(true), a, b); int w = Node(f.words[a], a, b); Edge(h, {w}); }
    else { h = Node(Sym(false), a, b); Split(h, a, b, depth); if (o.packed) while (f.n[h].edges.size() < 3 && r.chance(0.3)) { Split(h, a, b, depth); std::set<std::vector<int>> s; for (int e : f.n[h].edges) s.insert(f.e[e].tails); if (s.size() < f.n[h].edges.size()) { f.e.pop_back(); f.n[h].edges.pop_back(); break; } } }
    done[{a, b}].push_back(h); return h;
  }
};
// The order in which the tree reader numbers edges: heads before their children
static inline void TopDownEdges(Forest* f) {
  std::vector<int> q; std::vector<char> seen(f->n.size(), 0); std::vector<int> todo(1, 0); if (f->n.empty()) return; seen[0] = 1;
  while (!todo.empty()) { int v = todo.back(); todo.pop_back(); for (int e : f->n[v].edges) { q.push_back(e); for (size_t k = f->e[e].tails.size(); k-- > 0;) { int t = f->e[e].tails[k]; if (!seen[t]) { seen[t] = 1; todo.push_back(t); } } } }
  Forest g; g.words = f->words; g.n = f->n; for (auto& n : g.n) n.edges.clear(); for (int e : q) { g.n[f->e[e].head].edges.push_back(g.e.size()); g.e.push_back(f->e[e]); } *f = g;
}
static inline Forest MakeForest(dsim::Rng& r, const ForestOpt& o) {
  ForestMaker m{r, o, {}, {}}; for (int i = 0; i < o.words; ++i) m.f.words.push_back(r.chance(0.04) ? "w\"" : (o.target ? "t" : "s") + std::to_string(r.range(0, 5)));
  int n = o.words; if (n == 1 && r.chance(0.5)) m.Build(0, 1, 0); else { int h = m.Node(m.Sym(false), 0, n); m.Split(h, 0, n, 0); }
  // the splits above may have left nodes no tree uses
  Forest& f = m.f; std::vector<char> use(f.n.size(), 0); std::vector<int> todo(1, 0); use[0] = 1; while (!todo.empty()) { int v = todo.back(); todo.pop_back(); for (int e : f.n[v].edges) for (int t : f.e[e].tails) if (!use[t]) { use[t] = 1; todo.push_back(t); } }
  Forest g; g.words = f.words; std::vector<int> to(f.n.size(), -1); for (size_t i = 0; i < f.n.size(); ++i) if (use[i]) { to[i] = g.n.size(); g.n.push_back({f.n[i].sym, f.n[i].l, f.n[i].r, {}}); }
  for (auto& e : f.e) { if (!use[e.head]) continue; Ed x = e; x.head = to[e.head]; for (int& t : x.tails) t = to[t]; g.n[x.head].edges.push_back(g.e.size()); g.e.push_back(x); }
  TopDownEdges(&g); return g;
}
// A different numbering of the same forest; the root stays node 0
static inline void ShuffleForest(dsim::Rng& r, Forest* f) {
  std::vector<int> p(f->n.size()), q(f->e.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = i; for (size_t i = 0; i < q.size(); ++i) q[i] = i;
  for (size_t i = p.size(); i > 2; --i) std::swap(p[i - 1], p[1 + r.below(i - 1)]); for (size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[r.below(i)]);
  Forest g; g.words = f->words; g.n.resize(p.size()); for (size_t i = 0; i < p.size(); ++i) { g.n[p[i]] = f->n[i]; g.n[p[i]].edges.clear(); }
  for (size_t i = 0; i < q.size(); ++i) { Ed e = f->e[q[i]]; e.head = p[e.head]; for (int& t : e.tails) t = p[t]; g.n[e.head].edges.push_back(g.e.size()); g.e.push_back(e); }
  *f = g;
}
static inline std::string ForestPenn(const Forest& f, int v = 0) {
  if (f.n.empty()) return "()"; const Nd& n = f.n[v]; if (n.edges.empty()) return n.sym;
  std::string s = "(" + n.sym; for (int t : f.e[n.edges[0]].tails) s += " " + ForestPenn(f, t); return s + ")";
}
static inline std::string JsonStr(const std::string& s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
static inline std::string ForestJson(const Forest& f) {
  std::string s = "{\"nodes\": ["; auto num = [](long i) { return std::to_string(i); };
  for (size_t i = 0; i < f.n.size(); ++i) s += (i ? ", " : "") + std::string("{\"id\": ") + num(i) + ", \"sym\": " + JsonStr(f.n[i].sym) + ", \"span\": [" + num(f.n[i].l) + ", " + num(f.n[i].r) + "]}";
  s += "], \"edges\": [";
  for (size_t i = 0; i < f.e.size(); ++i) { s += (i ? ", " : "") + std::string("{\"id\": ") + num(i) + ", \"head\": " + num(f.e[i].head) + ", \"tails\": ["; for (size_t k = 0; k < f.e[i].tails.size(); ++k) s += (k ? ", " : "") + num(f.e[i].tails[k]); s += "]"; if (f.e[i].score != 0) { char b[32]; snprintf(b, sizeof b, "%g", f.e[i].score); s += std::string(", \"score\": ") + b; } s += "}"; }
  s += "], \"words\": ["; for (size_t i = 0; i < f.words.size(); ++i) s += (i ? ", " : "") + JsonStr(f.words[i]); return s + "]}";
}
// Binarisation by definition. clash: the result would depend on the order of the edges.
struct RefBinarizer {
  const Forest& f; Forest g; std::map<std::string, int> ids; std::map<std::string, std::string> sym_of; bool clash = false;
  int Get(const std::vector<int>& t, const std::string& bar, bool with_sym) {
    std::string k = t.size() > 1 && with_sym ? bar + " " : ""; for (int x : t) k += std::to_string(x) + ",";
    auto it = ids.find(k); if (it != ids.end()) { if (t.size() > 1 && g.n[it->second].sym != bar) clash = true; return it->second; }
    g.n.push_back({t.size() > 1 ? bar : f.n[t[0]].sym, f.n[t[0]].l, f.n[t.back()].r, {}}); return ids[k] = g.n.size() - 1;
  }
  void Add(int h, const std::vector<int>& t, double s) { g.e.push_back({h, t, s}); g.n[h].edges.push_back(g.e.size() - 1); }
  static bool Punct(const std::string& s) { return s == "." || s == "," || s == "$." || s == "$,"; }
  void Dir(int h, const std::vector<int>& t, bool right, bool rp, const std::string& bar, double s) {
    if (t.size() == 1) { int a = Get(t, bar, true); Add(h, {a}, s); return; }
    bool r = right; if (rp && right && Punct(f.n[t.back()].sym)) r = false; else if (rp && !right && Punct(f.n[t[0]].sym)) r = true;
    std::vector<int> a, b; if (r) { a.assign(t.begin(), t.begin() + 1); b.assign(t.begin() + 1, t.end()); } else { a.assign(t.begin(), t.end() - 1); b.assign(t.end() - 1, t.end()); }
    int x = Get(a, bar, true), y = Get(b, bar, true); Add(h, {x, y}, s);
    if (a.size() > 1 && g.n[x].edges.empty()) Dir(x, a, right, rp, bar, 0); if (b.size() > 1 && g.n[y].edges.empty()) Dir(y, b, right, rp, bar, 0);
  }
  void Cky(int h, const std::vector<int>& t, const std::string& bar, double s) {
    int n = t.size(); std::set<int> ks = {1, n - 1};
    for (int k : ks) { std::vector<int> a(t.begin(), t.begin() + k), b(t.begin() + k, t.end()); int x = Get(a, bar, false), y = Get(b, bar, false); Add(h, {x, y}, s); if (k > 1 && g.n[x].edges.empty()) Cky(x, a, bar, 0); if (n - k > 1 && g.n[y].edges.empty()) Cky(y, b, bar, 0); }
  }
};
static inline Forest BinarizeForest(const Forest& f, const std::string& how, bool* clash) {
  if (how == "none" || f.n.empty()) return f; RefBinarizer b{f, {}, {}, {}}; b.g.words = f.words; bool cky = how == "cky"; b.Get({0}, "", true);
  for (size_t v = 0; v < f.n.size(); ++v) for (int e : f.n[v].edges) {
    std::string bar = f.n[v].sym + "'"; const Ed& x = f.e[e]; int h = b.Get({(int)v}, "", !cky);
    if (x.tails.empty()) b.Add(h, {}, x.score);
    else if (!cky) b.Dir(h, x.tails, how[0] == 'r', how.size() > 2 && how.substr(how.size() - 2) == "rp", bar, x.score);
    else if (x.tails.size() <= 2 || x.tails.size() > 7) { std::vector<int> t; for (int k : x.tails) t.push_back(b.Get({k}, "", false)); b.Add(h, t, x.score); }
    else b.Cky(h, x.tails, bar, x.score);
  }
  *clash = b.clash; return b.g;
}
