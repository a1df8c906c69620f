// ARPA files and the back-off rule: reference side, shared by the oracles.
#pragma once
#include "prop.h"
#include <stdlib.h>
typedef std::vector<std::string> SV;
static inline dsim::Plan Plain() { dsim::Plan p; p.strategy = 0; p.step_limit = 20000000; return p; }
static inline std::string N(long i) { return std::to_string(i); }
static inline std::string Join(const SV& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i]; return s; }
static inline SV Split(const std::string& s, const char* delim) {
  SV o; size_t i = 0;
  while (i < s.size()) { size_t e = s.find_first_of(delim, i); if (e == std::string::npos) e = s.size(); if (e > i) o.push_back(s.substr(i, e - i)); i = e + 1; }
  return o;
}
static inline SV Lines(const std::string& s) { SV o; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) { o.push_back(s.substr(i)); break; } o.push_back(s.substr(i, e - i)); i = e + 1; } return o; }

// ==================================================================== ARPA files
struct Entry { double prob, back; bool has_back; };
struct Arpa {
  int order = 0; std::vector<long> counts; std::vector<std::map<SV, Entry>> g;   // g[n], n from 1
  std::string error;
};
static inline Arpa ParseArpa(const std::string& s, bool verbose_header = false) {
  Arpa a; SV l = Lines(s); size_t i = 0;
  auto bad = [&](const std::string& e) { a.error = e + " at line " + N(i + 1) + (i < l.size() ? ": " + Clip(l[i], 80) : ""); return a; };
  if (verbose_header) while (i < l.size() && l[i].compare(0, 2, "# ") == 0) ++i;
  if (i >= l.size() || l[i] != "\\data\\") return bad("no \\data\\ line"); ++i;
  while (i < l.size() && l[i].compare(0, 6, "ngram ") == 0) { size_t e = l[i].find('='); if (e == std::string::npos || atoi(l[i].c_str() + 6) != (int)a.counts.size() + 1) return bad("bad count line"); a.counts.push_back(atol(l[i].c_str() + e + 1)); ++i; }
  a.order = a.counts.size(); a.g.resize(a.order + 1);
  for (int n = 1; n <= a.order; ++n) {
    if (i >= l.size() || !l[i].empty()) return bad("no blank line"); ++i;
    if (i >= l.size() || l[i] != "\\" + N(n) + "-grams:") return bad("no section " + N(n)); ++i;
    for (; i < l.size() && !l[i].empty(); ++i) {
      size_t t1 = l[i].find('\t'); if (t1 == std::string::npos) return bad("no tab");
      size_t t2 = l[i].find('\t', t1 + 1); SV w = Split(l[i].substr(t1 + 1, t2 == std::string::npos ? std::string::npos : t2 - t1 - 1), " ");
      if ((int)w.size() != n) return bad("wrong number of words");
      char* e; Entry x; x.prob = strtod(l[i].c_str(), &e); if (e != l[i].c_str() + t1) return bad("bad probability");
      x.has_back = t2 != std::string::npos; x.back = 0; if (x.has_back) { x.back = strtod(l[i].c_str() + t2 + 1, &e); if (*e) return bad("bad back-off"); }
      if (!a.g[n].emplace(w, x).second) return bad("n-gram listed twice");
    }
    if ((long)a.g[n].size() != a.counts[n - 1]) return bad("section " + N(n) + " has " + N(a.g[n].size()) + " entries, header says " + N(a.counts[n - 1]));
  }
  if (i + 2 != l.size() || !l[i].empty() || l[i + 1] != "\\end\\") return bad("no \\end\\");
  return a;
}

struct RefLm {
  Arpa a; const Entry* Find(const SV& w) const { auto it = a.g[w.size()].find(w); return it == a.g[w.size()].end() ? nullptr : &it->second; }
  bool Known(const std::string& w) const { return w != "<unk>" && a.g[1].count({w}); }
  double Unk() const { const Entry* e = Find({"<unk>"}); return e ? e->prob : -100; }
  // log probability of w (already mapped) after h; *len: length of the longest n-gram that matches
  double Score(const SV& hist, const std::string& w, int* len) const {
    SV h = hist; if ((int)h.size() > a.order - 1) h.erase(h.begin(), h.end() - (a.order - 1));
    for (size_t k = h.size();; --k) {
      SV g(h.end() - k, h.end()); g.push_back(w); const Entry* e = Find(g);
      if (e || !k) {
        double p = e ? e->prob : Unk(); *len = k + 1;
        for (size_t q = k + 1; q <= h.size(); ++q) if (const Entry* c = Find(SV(h.end() - q, h.end()))) p += c->back;
        return p;
      }
    }
  }
};
