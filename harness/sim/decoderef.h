// What the decoder reads and prints, parsed; shared by the oracles of its search and its explanations.
#pragma once
#include "jobs.h"
#include "lmref.h"
#include <algorithm>
#include <math.h>
#include <string.h>
namespace {
typedef std::map<std::string, double> Feat;
struct Deriv { SV w[2]; Feat f; };
typedef std::vector<Deriv> Derivs;
struct TooMany {};
const size_t kMost = 1500;

std::string Arg(const Job& j, const std::string& name) { for (size_t i = 0; i + 1 < j.args.size(); ++i) if (j.args[i] == "-" + name) return j.args[i + 1]; return ""; }
void SetArg(Job& j, const std::string& name, const std::string& v) { for (size_t i = 0; i + 1 < j.args.size(); ++i) if (j.args[i] == "-" + name) { if (v.empty()) j.args.erase(j.args.begin() + i, j.args.begin() + i + 2); else j.args[i + 1] = v; return; } if (!v.empty()) { j.args.push_back("-" + name); j.args.push_back(v); } }
SV Cut(const std::string& s, const std::string& sep) { SV o; size_t i = 0; for (;;) { size_t e = s.find(sep, i); if (e == std::string::npos) { o.push_back(s.substr(i)); return o; } o.push_back(s.substr(i, e - i)); i = e + sep.size(); } }
Feat ParseFeat(const std::string& s) { Feat f; for (auto& t : Split(s, " ")) { size_t e = t.rfind('='); if (e != std::string::npos) f[t.substr(0, e)] += atof(t.c_str() + e + 1); } return f; }
void Add(Feat& a, const Feat& b) { for (auto& k : b) a[k.first] += k.second; }
double Dot(const Feat& a, const Feat& w) { double s = 0; for (auto& k : a) { auto it = w.find(k.first); if (it != w.end()) s += it->second * k.second; } return s; }
bool Same(double a, double b) { return fabs(a - b) <= 2e-3 + 2e-4 * std::max(fabs(a), fabs(b)); }
bool Same(const Feat& a, const Feat& b) {
  for (auto& k : a) { auto it = b.find(k.first); if (!Same(k.second, it == b.end() ? 0 : it->second)) return false; }
  for (auto& k : b) if (!a.count(k.first) && !Same(k.second, 0)) return false;
  return true;
}
std::string Show(const Feat& f) { std::string s; for (auto& k : f) s += (s.empty() ? "" : " ") + k.first + "=" + std::to_string(k.second); return s; }

// ---- target sides
struct Tok { int x = -1; std::string w, lab; };      // x >= 0: variable
Tok ParseTok(const std::string& t) { Tok k; if (t[0] == '"') k.w = t.substr(1, t.size() - 2); else { k.x = atoi(t.c_str() + 1); size_t c = t.find(':'); if (c != std::string::npos) k.lab = t.substr(c + 1); } return k; }
struct Rule { std::vector<Tok> trg[2]; int factors = 1; std::string head, thead[2]; Feat f; std::vector<Tok> src; std::string tree; int nx = 0; };
void ParseTrg(Rule& r, const std::string& col) {
  auto cs = Cut(col, " |COL| "); r.factors = cs.size();
  for (size_t i = 0; i < cs.size() && i < 2; ++i) { bool at = false; for (auto& t : Split(cs[i], " ")) { if (at) { r.thead[i] = t; break; } if (t == "@") at = true; else r.trg[i].push_back(ParseTok(t)); } }
}
// every combination of the children's derivations
void Combine(const Rule& r, int factors, const std::vector<const Derivs*>& kids, const Feat& extra, Derivs& out) {
  std::vector<size_t> ix(kids.size(), 0);
  for (auto k : kids) if (k->empty()) return;
  for (;;) {
    Deriv d; d.f = r.f; Add(d.f, extra);
    for (int c = 0; c < factors; ++c) for (auto& t : r.trg[c]) { if (t.x < 0) d.w[c].push_back(t.w); else { auto& k = (*kids[t.x])[ix[t.x]].w[c]; d.w[c].insert(d.w[c].end(), k.begin(), k.end()); } }
    for (size_t i = 0; i < kids.size(); ++i) Add(d.f, (*kids[i])[ix[i]].f);
    out.push_back(d); if (out.size() > kMost) throw TooMany();
    size_t p = 0; while (p < ix.size() && ++ix[p] == kids[p]->size()) ix[p++] = 0;
    if (p == ix.size()) return;
  }
}
// ---- input graphs
struct Node; struct Edge { std::vector<int> tails; Feat f; };
struct Node { std::string lab; bool leaf = false; std::vector<Edge> edges; int from = -1, to = -1; };
struct Graph { std::vector<Node> n; SV words; int root = -1; };
int ReadPenn(Graph& g, const SV& t, size_t& p) {
  Node nd; int id = g.n.size(); g.n.push_back(nd);
  if (t[p] != "(") { g.n[id].leaf = true; g.n[id].lab = t[p++]; g.n[id].from = g.words.size(); g.words.push_back(g.n[id].lab); g.n[id].to = g.words.size(); return id; }
  ++p; g.n[id].lab = t[p++]; Edge e; int from = g.words.size(); while (t[p] != ")") { int c = ReadPenn(g, t, p); e.tails.push_back(c); } ++p; g.n[id].edges.push_back(e); g.n[id].from = from; g.n[id].to = g.words.size(); return id;
}
SV PennToks(const std::string& s) { SV o; std::string c; auto fl = [&] { if (!c.empty()) o.push_back(c); c.clear(); }; for (char ch : s) { if (ch == '(' || ch == ')') { fl(); o.push_back(std::string(1, ch)); } else if (isspace((unsigned char)ch)) fl(); else c += ch; } fl(); return o; }
Graph ReadEgret(const std::string& u) {
  Graph g; SV l = Lines(u); g.words = Split(l[1], " "); std::map<std::string, int> id; std::vector<std::vector<double>> sc;
  auto node = [&](const std::string& t, int from, int to) {
    size_t b = t.rfind('['); bool leaf = t.back() != ']' || b == std::string::npos; std::string key = leaf ? t + "@" + N(from) : t;
    auto it = id.find(key); if (it != id.end()) return it->second; int k = g.n.size(); id[key] = k; Node n; n.leaf = leaf; n.lab = leaf ? t : t.substr(0, b); if (leaf) { n.from = from; n.to = to; } else { n.from = atoi(t.c_str() + b + 1); n.to = atoi(t.c_str() + t.find(',', b) + 1) + 1; } g.n.push_back(n); sc.push_back({}); return k;
  };
  for (size_t i = 2; i < l.size() && !l[i].empty(); ++i) {
    SV t = Split(l[i], " "); int h = node(t[0], 0, 0); Edge e; size_t k = 2; for (; t[k] != "|||"; ++k) { int c = node(t[k], g.n[h].from, g.n[h].to); e.tails.push_back(c); }
    g.n[h].edges.push_back(e); sc[h].push_back(atof(t[k + 1].c_str())); g.root = h;
  }
  for (size_t h = 0; h < g.n.size(); ++h) { double s = 0; for (double x : sc[h]) s += exp(x); for (size_t i = 0; i < sc[h].size(); ++i) g.n[h].edges[i].f["parse"] = sc[h][i] - log(s); }
  return g;
}
void BinarizeTree(Graph& g, bool right) {     // trees only: one edge per node
  for (size_t i = 0; i < g.n.size(); ++i) {
    if (g.n[i].edges.empty()) continue;
    while (g.n[i].edges[0].tails.size() > 2) {
      std::vector<int> t = g.n[i].edges[0].tails; Node m; m.lab = g.n[i].lab.back() == '\'' ? g.n[i].lab : g.n[i].lab + "'"; Edge e;
      if (right) { e.tails.assign(t.end() - 2, t.end()); t.resize(t.size() - 2); t.push_back(g.n.size()); } else { e.tails.assign(t.begin(), t.begin() + 2); t.erase(t.begin(), t.begin() + 2); t.insert(t.begin(), g.n.size()); }
      m.edges.push_back(e); m.from = g.n[e.tails[0]].from; m.to = g.n[e.tails.back()].to; g.n[i].edges[0].tails = t; g.n.push_back(m);
    }
  }
}
}
