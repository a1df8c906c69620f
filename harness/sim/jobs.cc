#include <dirent.h>
#include "jobs.h"
#include "lmref.h"
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#include <algorithm>
#include <functional>
#include <math.h>
#include <stdio.h>
#include <string.h>
using namespace dsim;
int travatar_main(int, char**); int batch_tune_main(int, char**); int forest_extractor_main(int, char**); int hiero_extractor_main(int, char**);
int mt_evaluator_main(int, char**); int mt_segmenter_main(int, char**); int rescorer_main(int, char**); int tokenizer_main(int, char**);
int train_caser_main(int, char**); int tree_converter_main(int, char**);
int lmplz_main(int, char**); int build_binary_main(int, char**); int query_main(int, char**); int filter_main(int, char**);

typedef std::vector<std::string> SV;
static std::string S(const char* f, double v) { char b[64]; snprintf(b, sizeof b, f, v); return b; }
static std::string Path(const std::string& dir, const std::string& f) { std::string s = dir + "/" + f; return s; }

std::string Gzip(const std::string& s) {
  z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
  std::string o(deflateBound(&z, s.size()) + 64, '\0'); z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size();
  deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
static std::string Subst(std::string a, const std::string& dir) {
  for (size_t p = 0; (p = a.find("@/", p)) != std::string::npos;) { a.replace(p, 1, dir); p += dir.size(); }
  return a;
}
void JobPrepare(const Job& j, const std::string& dir) {
  mkdir(dir.c_str(), 0755);
  for (auto& f : j.files) WriteFile(Path(dir, f.first), f.first == "conf.ini" ? Subst(f.second, dir) : f.second);
  WriteFile(Path(dir, "empty"), "");
  for (auto& b : j.binarise) {   // the language model as a binary file, where the builder takes it
    SV av{"build_binary"}; { std::string t = b.second; size_t p; while ((p = t.find(' ')) != std::string::npos) { av.push_back(t.substr(0, p)); t = t.substr(p + 1); } av.insert(av.end(), {"-T", dir + "/tmp", "-S", "1M", t}); }
    for (auto x : {b.first, std::string("built")}) av.push_back(Path(dir, x));
    Plan p; p.strategy = 0; p.step_limit = 20000000; p.scratch = dir; p.stdin_path = Path(dir, "empty"); p.stdout_path = Path(dir, "stdout"); p.stderr_path = Path(dir, "stderr");
    Outcome o = Run(p, [&] { return CallMain(build_binary_main, av); });
    bool ok = o.kind == OUT_EXIT && o.code == 0; g_env.Reach(ok ? "binary_lm_" + b.second : "binary_lm_refused");
    if (ok) rename(Path(dir, "built").c_str(), Path(dir, b.first).c_str()); else unlink(Path(dir, "built").c_str());
  }
}
void JobClean(const Job& j, const std::string& dir) {   // nothing but the inputs stays
  DIR* d = opendir(dir.c_str()); if (!d) return;
  while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != ".." && n != "empty" && !j.files.count(n)) unlink(Path(dir, n).c_str()); }
  closedir(d);
}
Outcome JobRun(const Job& j, Plan p, const std::string& dir, int threads, JobResult* res) {
  JobClean(j, dir);
  SV av; av.push_back(j.tool);
  for (auto& a : j.args) av.push_back(Subst(a, dir));
  if (threads && !j.threads_arg.empty()) { av.push_back(j.threads_arg); av.push_back(N(threads)); }
  p.scratch = dir; p.stdin_path = Path(dir, j.stdin_file.empty() ? "empty" : j.stdin_file); p.stdout_path = Path(dir, "stdout"); p.stderr_path = Path(dir, "stderr");
  Outcome o = Run(p, [&] { return CallMain(j.fn, av); });
  if (res) { res->out.clear(); res->out["standard output"] = ReadFile(p.stdout_path); for (auto& f : j.outputs) res->out[f] = Exists(Path(dir, f)) ? ReadFile(Path(dir, f)) : "(missing)"; }
  return o;
}
std::string Diff(const JobResult& a, const JobResult& b) {
  for (auto& kv : a.out) { auto it = b.out.find(kv.first); if (it == b.out.end()) return kv.first + " is missing"; if (it->second != kv.second) return kv.first + " differs: " + FirstDiff(kv.second, it->second); }
  return "";
}

// ==================================================================== trees
struct T { std::string l; std::vector<T> c; bool leaf = false; };
static const char* kPhr[] = {"S", "NP", "VP", "PP", "ADJP"};
static const char* kPos[] = {"N", "V", "D", "P", "A"};
static T GenTree(Rng& r, const SV& words, int n, int depth) {
  T t;
  if (n == 1) {
    t.l = kPos[r.below(5)]; T w; w.leaf = true; w.l = words[r.below(words.size())]; t.c.push_back(w);
    if (depth && r.chance(0.15)) { T u; u.l = kPhr[1 + r.below(4)]; u.c.push_back(t); return u; }
    return t;
  }
  t.l = depth == 0 ? "S" : kPhr[1 + r.below(4)];
  int k = std::min(n, r.chance(0.75) ? 2 : r.chance(0.7) ? 3 : 4);
  int left = n;
  for (int i = 0; i < k; ++i) { int m = i == k - 1 ? left : 1 + (int)r.below(left - (k - 1 - i)); t.c.push_back(GenTree(r, words, m, depth + 1)); left -= m; }
  return t;
}
static std::string Penn(const T& t) { if (t.leaf) return t.l; std::string s = "(" + t.l; for (auto& c : t.c) s += " " + Penn(c); return s + ")"; }
static std::string Moses(const T& t) { if (t.leaf) return t.l; std::string s = "<tree label=\"" + t.l + "\">"; for (auto& c : t.c) s += " " + Moses(c); return s + " </tree>"; }
static void Leaves(const T& t, SV& o) { if (t.leaf) o.push_back(t.l); else for (auto& c : t.c) Leaves(c, o); }
static std::string Join(const SV& v, const char* sep) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? sep : "") + v[i]; return s; }
static int EgretRec(const T& t, int from, std::string& rules) {   // returns end (exclusive)
  std::string rhs; int pos = from;
  for (auto& c : t.c) { if (c.leaf) { rhs += (rhs.empty() ? "" : " ") + c.l; pos++; } else { int e = EgretRec(c, pos, rules); rhs += (rhs.empty() ? "" : " ") + c.l + "[" + N(pos) + "," + N(e - 1) + "]"; pos = e; } }
  rules += t.l + "[" + N(from) + "," + N(pos - 1) + "] => " + rhs + " ||| " + S("%.3f", -0.001 * (1 + (from * 7 + pos * 3) % 90)) + "\n";
  return pos;
}
static std::string Egret(const T& t) { SV w; Leaves(t, w); std::string rules; EgretRec(t, 0, rules); return "sentence :\n" + Join(w) + "\n" + rules + "\n"; }
// other analyses of the same words; a packed forest is the union of the constituents of several
static T Build(Rng& r, const std::vector<T>& pre, int from, int n, const std::string& label) {
  if (n == 1) { T t = pre[from]; if (r.chance(0.15)) { T u; u.l = kPhr[1 + r.below(4)]; u.c.push_back(t); return u; } return t; }
  T t; t.l = label; int k = std::min(n, r.chance(0.75) ? 2 : 3), at = from, left = n;
  for (int i = 0; i < k; ++i) { int m = i == k - 1 ? left : 1 + (int)r.below(left - (k - 1 - i)); t.c.push_back(Build(r, pre, at, m, kPhr[1 + r.below(4)])); at += m; left -= m; }
  return t;
}
static void Preterminals(const T& t, std::vector<T>& o) { if (t.c.size() == 1 && t.c[0].leaf) o.push_back(t); else for (auto& c : t.c) Preterminals(c, o); }
static T Vary(Rng& r, const T& t, int depth) {
  std::vector<T> pre; Preterminals(t, pre); int n = pre.size(); T o = t;
  if (n == 1) { if (depth && r.chance(0.2)) { if (t.c[0].leaf) o.l = kPos[r.below(5)]; else o.l = kPhr[1 + r.below(4)]; } return o; }
  if (n >= 3 && r.chance(0.5)) return Build(r, pre, 0, n, depth && r.chance(0.3) ? kPhr[1 + r.below(4)] : t.l);
  for (auto& c : o.c) c = Vary(r, c, depth + 1);
  if (depth && r.chance(0.15)) o.l = kPhr[1 + r.below(4)];
  return o;
}
typedef std::map<std::pair<std::pair<int, int>, std::string>, SV> Packed;    // (width and start, label) -> right hand sides
static int PackRec(const T& t, int from, Packed& g) {
  std::string rhs; int pos = from; bool pos_tag = t.c.size() == 1 && t.c[0].leaf;
  for (auto& c : t.c) { if (c.leaf) { rhs += (rhs.empty() ? "" : " ") + c.l; pos++; } else { int e = PackRec(c, pos, g); rhs += (rhs.empty() ? "" : " ") + c.l + "[" + N(pos) + "," + N(e - 1) + "]"; pos = e; } }
  SV& v = g[std::make_pair(std::make_pair(pos - from, from), std::string(pos_tag ? "0" : "1") + t.l)];
  if (std::find(v.begin(), v.end(), rhs) == v.end()) v.push_back(rhs);
  return pos;
}
static std::string EgretForest(const std::vector<T>& ts) {
  SV w; Leaves(ts[0], w); Packed g; for (auto& t : ts) PackRec(t, 0, g); std::string s = "sentence :\n" + Join(w) + "\n"; int k = 0;
  for (auto& n : g) for (auto& rhs : n.second) { ++k; s += n.first.second.substr(1) + "[" + N(n.first.first.second) + "," + N(n.first.first.second + n.first.first.first - 1) + "] => " + rhs + " ||| " + S("%.3f", -0.05 * (1 + (k * 37 + n.first.first.second * 11) % 60)) + "\n"; }
  return s + "\n";
}
// binarised copy with the labels the programs use (X')
static T Binarize(const T& t, bool right) {
  if (t.leaf) return t;
  T o = t; o.c.clear(); for (auto& c : t.c) o.c.push_back(Binarize(c, right));
  while (o.c.size() > 2) {
    T m; m.l = (o.l[o.l.size() - 1] == '\'') ? o.l : o.l + "'";
    if (right) { m.c.assign(o.c.end() - 2, o.c.end()); o.c.resize(o.c.size() - 2); o.c.push_back(m); }
    else { m.c.assign(o.c.begin(), o.c.begin() + 2); o.c.erase(o.c.begin(), o.c.begin() + 2); o.c.insert(o.c.begin(), m); }
  }
  return o;
}
// ==================================================================== rules
struct Tm { SV src, trg; std::map<std::string, SV> lex; };
static Tm GenVocab(Rng& r, int ns, int nt) {
  Tm m; bool utf = r.chance(0.3);
  for (int i = 0; i < ns; ++i) m.src.push_back((utf && i % 3 == 0 ? "\xc3\xa9" : "") + std::string("s") + N(i));
  for (int i = 0; i < nt; ++i) m.trg.push_back((utf && i % 4 == 0 ? "\xe6\x97\xa5" : "") + std::string("t") + N(i));
  for (auto& s : m.src) { int k = 1 + (int)r.below(3); for (int i = 0; i < k; ++i) m.lex[s].push_back(m.trg[r.below(nt)]); }
  return m;
}
static bool g_coarse = false;   // few distinct scores: ties everywhere
static std::string Feats(Rng& r, int words) {
  if (g_coarse) return "p=-" + N(1 + (int)r.below(2)) + (r.chance(0.3) ? " w=1" : "");
  std::string s = "p=" + S("%.5f", -0.01 - 3 * r.unit());
  if (r.chance(0.8)) s += " w=" + N(words);
  if (r.chance(0.5)) s += " ppen=1";
  if (r.chance(0.15)) s += " sp" + N((int)r.below(6)) + "=" + S("%.4f", r.unit() - 0.5);
  return s;
}
struct Frag { std::string src; std::vector<std::string> trg; int nx = 0; std::vector<std::string> lab; };
static void FragRec(Rng& r, const T& t, const Tm& m, Frag& f, double pexp, bool top) {
  if (t.leaf) { f.src += (f.src.empty() ? "" : " ") + std::string("\"") + t.l + "\""; if (!r.chance(0.1)) { auto it = m.lex.find(t.l); f.trg.push_back("\"" + (it == m.lex.end() ? t.l : it->second[r.below(it->second.size())]) + "\""); } return; }
  if (!top && !r.chance(pexp)) { std::string x = "x" + N(f.nx++); f.src += " " + x + ":" + t.l; f.trg.push_back(x + ":" + t.l); return; }
  f.src += (f.src.empty() ? "" : " ") + t.l + " (";
  for (auto& c : t.c) FragRec(r, c, m, f, pexp, false);
  f.src += " )";
}
static void Nodes(const T& t, std::vector<const T*>& o) { if (t.leaf) return; o.push_back(&t); for (auto& c : t.c) Nodes(c, o); }
static void Shuffle(Rng& r, std::vector<std::string>& v) { for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]); }
static std::string Factor(const SV& trg) { SV o; for (auto& x : trg) o.push_back(x[0] == '"' && x.size() > 3 && isdigit(x[x.size() - 2]) ? "\"f" + N((x[x.size() - 2] - '0') % 4) + "\"" : x); return Join(o); }
static bool g_factors = false;
static std::string TreeRules(Rng& r, const std::vector<T>& trees, const Tm& m, double cover) {
  std::map<std::string, std::string> rules;    // unique keys
  for (auto& t : trees) { std::vector<const T*> ns; Nodes(t, ns);
    for (auto n : ns) for (int rep = 0; rep < 2; ++rep) if (r.chance(rep ? cover * 0.6 : cover)) {
      Frag f; FragRec(r, *n, m, f, rep ? 0.4 : 0.05, true);
      if (f.nx > 4) continue;
      if (r.chance(0.5)) Shuffle(r, f.trg);
      int w = 0; for (auto& x : f.trg) if (x[0] == '"') ++w;
      if (f.trg.empty()) f.trg.push_back("\"" + m.trg[0] + "\"");
      std::string key = f.src + " ||| " + Join(f.trg) + " @ " + n->l + (g_factors ? " |COL| " + Factor(f.trg) + " @ " + n->l : "");
      if (!rules.count(key)) rules[key] = Feats(r, w);
    } }
  SV lines; for (auto& k : rules) lines.push_back(k.first + " ||| " + k.second); Shuffle(r, lines);
  return Join(lines, "\n") + (lines.empty() ? "" : "\n");
}
// target labels of their own
static std::string Relabel(Rng& r, const std::string& rules) {
  std::string out; double p = r.chance(0.3) ? 0 : 0.4;
  for (auto& l : Lines(rules)) { size_t a = l.find(" ||| ") + 5, b = l.find(" ||| ", a); SV t = Split(l.substr(a, b - a), " "); std::string to;
    std::map<std::string, std::string> same;      // both factors usually agree
    for (size_t i = 0; i < t.size(); ++i) { std::string x = t[i]; size_t c; bool head = i && t[i - 1] == "@";
      if (head || (x[0] == 'x' && (c = x.find(':')) != std::string::npos)) { std::string key = head ? "@" : x; if (same.count(key) && !r.chance(0.1)) x = same[key]; else if (r.chance(p)) { std::string lab = r.chance(0.5) ? "A" : "B"; x = head ? lab : x.substr(0, c + 1) + lab; } same[key] = x; }
      to += (i ? " " : "") + x; }
    out += l.substr(0, a) + to + l.substr(b) + "\n"; }
  return out;
}
static std::string HieroRules(Rng& r, const std::vector<SV>& sents, const Tm& m, bool cfg) {
  std::map<std::string, std::string> rules;
  for (auto& s : sents) for (int rep = 0; rep < 6; ++rep) {
    int n = s.size(); if (!n) continue; int a = r.below(n), b = std::min(n, a + 1 + (int)r.below(3)); std::string src; SV trg; int nx = 0;
    for (int i = a; i < b; ++i) {
      if (b - a > 1 && nx < 2 && r.chance(0.35) && !(nx && src.size() > 2 && src[src.size() - 1] == 'X')) { src += (src.empty() ? "" : " ") + std::string("x") + N(nx) + ":X"; trg.push_back("x" + N(nx) + ":X"); nx++; }
      else { src += (src.empty() ? "" : " ") + std::string("\"") + s[i] + "\""; if (cfg || !r.chance(0.1)) trg.push_back("\"" + m.lex.find(s[i])->second[r.below(m.lex.find(s[i])->second.size())] + "\""); }
    }
    if (src.find('"') == std::string::npos) continue;
    if (trg.empty()) trg.push_back("\"" + m.trg[0] + "\"");
    if (r.chance(0.4)) Shuffle(r, trg);
    int w = 0; for (auto& x : trg) if (x[0] == '"') ++w;
    std::string key = src + " @ X ||| " + Join(trg) + " @ X" + (g_factors ? " |COL| " + Factor(trg) + " @ X" : ""); if (!rules.count(key)) rules[key] = Feats(r, w);
  }
  SV lines; for (auto& k : rules) lines.push_back(k.first + " ||| " + k.second); Shuffle(r, lines);
  if (lines.empty()) lines.push_back("\"" + m.src[0] + "\" @ X ||| \"" + m.trg[0] + "\" @ X" + (g_factors ? " |COL| \"f1\" @ X" : "") + " ||| p=-0.5 w=1");
  return Join(lines, "\n") + "\n";
}
std::string GenArpa(Rng& r, const SV& words, int order, bool unk) {
  std::vector<std::map<SV, std::pair<double, double>>> g(order + 1);
  auto lp = [&] { return g_coarse ? -0.5 * (1 + (int)r.below(3)) : -0.05 - 3.5 * r.unit(); };
  for (auto& w : words) if (r.chance(0.9)) g[1][{w}] = {lp(), -r.unit()};
  if (g[1].empty()) g[1][{words[0]}] = {lp(), -0.1};
  if (unk) g[1][{"<unk>"}] = {lp() - 1, 0};
  g[1][{"<s>"}] = {-99, -r.unit()}; g[1][{"</s>"}] = {lp(), 0};
  SV all; for (auto& k : g[1]) all.push_back(k.first[0]);
  for (int n = 2; n <= order; ++n) {
    // extend an existing (n-1)-gram whose suffix, extended, exists as well
    for (auto& k : g[n - 1]) { const SV& c = k.first; if (c.back() == "</s>" || c.back() == "<unk>" || c[0] == "<unk>") continue;
      int tries = n == 2 ? 3 : 5;
      for (int q = 0; q < tries; ++q) { std::string w = all[r.below(all.size())]; if (w == "<s>" || w == "<unk>") continue; SV x = c; x.push_back(w); SV suf(x.begin() + 1, x.end()); if (!g[n - 1].count(suf)) continue; g[n][x] = {lp() * 0.7, -r.unit()}; } }
  }
  while (order > 1 && g[order].empty()) --order;
  std::string o = "\\data\\\n"; for (int n = 1; n <= order; ++n) o += "ngram " + N(n) + "=" + N((int)g[n].size()) + "\n";
  for (int n = 1; n <= order; ++n) { o += "\n\\" + N(n) + "-grams:\n";
    for (auto& k : g[n]) { o += S("%.6g", k.second.first) + "\t" + Join(k.first); if (n < order && !(k.first.back() == "</s>")) o += "\t" + S("%.6g", k.second.second); else if (n < order) o += "\t0"; o += "\n"; } }
  return o + "\n\\end\\\n";
}
std::string GenCorpus(Rng& r, int lines, int vocab, int maxlen, bool empties) {
  std::string o;
  for (int i = 0; i < lines; ++i) {
    int n = empties && r.chance(0.1) ? 0 : 1 + (int)r.below(maxlen); 
    for (int k = 0; k < n; ++k) { int a = r.below(vocab), b = r.below(vocab); o += (k ? " " : "") + std::string("c") + N(r.chance(0.6) ? std::min(a, b) : a); }
    o += "\n";
  }
  return o;
}
static std::string Weights(Rng& r, bool lm, int nlm) {
  std::string s = "p=" + S("%.4f", 0.2 + r.unit()) + " w=" + S("%.4f", r.unit() - 0.5) + " ppen=" + S("%.4f", 0.4 * (r.unit() - 0.5)) + " unk=" + S("%.3f", -2 - 3 * r.unit());
  if (r.chance(0.5)) s += " glue=" + S("%.4f", -r.unit());
  for (int i = 0; i < 6; ++i) if (r.chance(0.5)) s += " sp" + N(i) + "=" + S("%.4f", r.unit() - 0.5);
  if (lm) for (int i = 0; i < nlm; ++i) { std::string k = i ? N(i) : ""; s += " lm" + k + "=" + S("%.4f", 0.3 + 0.5 * r.unit()); if (r.chance(0.7)) s += " lmunk" + k + "=" + S("%.3f", -1 - 2 * r.unit()); }
  return s;
}
Job GenDecode(Rng& r, int size, bool lm_allowed) {
  Job j; j.tool = "travatar"; j.fn = travatar_main; j.threads_arg = "-threads";
  int ns = r.range(1, size), nw = r.range(3, 10);
  bool many = size >= 7 && r.chance(0.15), holes = r.chance(0.2); if (many) ns = r.range(10, 40);
  g_coarse = r.chance(0.2); g_factors = r.chance(0.12);
  struct Off { ~Off() { g_coarse = g_factors = false; } } off;
  Tm m = GenVocab(r, nw, r.range(3, 9));
  SV known = m.src; if (r.chance(0.5)) known.push_back("unknownword"); if (r.chance(0.3)) for (int i = 0; i < 4; ++i) known.push_back("u" + N(i));
  int kind = r.below(10);     // storage
  std::string storage = kind < 3 ? "hash" : kind < 6 ? "marisa" : kind < 8 ? "fsm" : "cfg";
  bool hiero = kind >= 6;
  bool forests = !hiero && r.chance(0.3), ctrg = !hiero && r.chance(0.15); int maxw = hiero || forests ? 5 : 7;
  std::vector<T> trees; std::vector<std::vector<T>> packed; std::vector<SV> sents;
  int dup = r.chance(0.4);
  for (int i = 0; i < ns; ++i) {
    T t = (dup && i && r.chance(0.4)) ? trees[r.below(trees.size())] : GenTree(r, known, many ? (i == 0 ? maxw : r.range(1, 2)) : r.range(1, maxw), 0);
    trees.push_back(t); SV w; Leaves(t, w); sents.push_back(w);
  }
  std::string bin = r.chance(0.4) ? "right" : r.chance(0.5) ? "left" : "none"; if (hiero || (forests && r.chance(0.6))) bin = "none";
  int nlm = lm_allowed ? (r.chance(0.65) ? 1 : r.chance(0.5) ? 2 : 0) : 0; if (storage == "cfg") nlm = 1;
  SV lmf;
  for (int i = 0; i < nlm; ++i) { std::string f = "lm" + N(i) + ".arpa"; bool fac = g_factors && r.chance(0.6);
    j.files[f] = GenArpa(r, fac ? SV{"f0", "f1", "f2", "f3"} : m.trg, r.range(2, 3), r.chance(0.8)); lmf.push_back("@/" + f + (fac ? "|factor=1" : ""));
    if (r.chance(0.3)) { static const char* bt[] = {"probing", "trie", "-a 3 trie", "-q 4 -b 4 trie", "-q 3 -b 5 -a 2 trie"}; j.binarise[f] = bt[r.below(5)]; } }
  if (hiero) {
    for (auto& s : m.src) m.lex[s];
    j.files["rules"] = HieroRules(r, [&] { std::vector<SV> v; for (auto& s : sents) { SV w; for (auto& x : s) if (m.lex.count(x) && !m.lex[x].empty()) w.push_back(x); v.push_back(w); } return v; }(), m, storage == "cfg");
    std::string glue = g_factors ? "x0:X @ S ||| x0:X @ S |COL| x0:X @ S ||| glue=1\nx0:S x1:X @ S ||| x0:S x1:X @ S |COL| x0:S x1:X @ S ||| glue=1\n" : "x0:X @ S ||| x0:X @ S ||| glue=1\nx0:S x1:X @ S ||| x0:S x1:X @ S ||| glue=1\n";
    if (storage == "cfg") j.files["rules"] += glue; else j.files["glue"] = glue;
  } else {
    packed.resize(trees.size());
    for (size_t i = 0; i < trees.size(); ++i) { packed[i].push_back(trees[i]); if (forests) for (int k = r.range(0, 3); k > 0; --k) packed[i].push_back(Vary(r, trees[i], 0)); }
    std::vector<T> bt; for (auto& p : packed) for (auto& t : p) bt.push_back(bin == "none" ? t : Binarize(t, bin == "right"));
    j.files["rules"] = TreeRules(r, bt, m, r.chance(0.8) ? 0.8 : 0.3);
    if (ctrg) j.files["rules"] = Relabel(r, j.files["rules"]);
    if (j.files["rules"].empty()) j.files["rules"] = std::string("N ( \"s0\" ) ||| \"t0\" @ N") + (g_factors ? " |COL| \"f0\" @ N" : "") + " ||| p=-0.5 w=1\n";
    if (r.chance(0.12)) { j.files["rules.gz"] = Gzip(j.files["rules"]); j.files.erase("rules"); }
  }
  std::string ini = "[tm_file]\n@/rules\n" + std::string(hiero && storage != "cfg" ? "@/glue\n" : "") + "\n[tm_storage]\n" + storage + "\n\n";
  if (hiero && storage == "fsm") ini += "[hiero_span_limit]\n" + N(r.range(2, 20)) + "\n" + N(100) + "\n\n";
  if (storage == "cfg" || !lmf.empty()) ini += "[lm_file]\n" + Join(lmf) + "\n\n";
  j.files["conf.ini"] = ini;
  auto add = [&](const char* o, const std::string& v) { j.args.push_back(std::string("-") + o); j.args.push_back(v); };
  add("config_file", "@/conf.ini"); add("weight_vals", Weights(r, nlm > 0, nlm)); add("binarize", bin);
  std::string fmt = hiero ? "word" : forests ? "egret" : r.chance(0.7) ? "penn" : "egret"; add("in_format", fmt);
  bool joint = r.chance(0.5); std::string search = (nlm == 2 && joint) ? "cp" : r.chance(0.5) ? "inc" : "cp"; add("search", search);
  if (nlm == 2 && storage != "cfg") add("lm_multi_type", joint ? "joint" : "consec");
  if (r.chance(0.5)) add("pop_limit", N(r.chance(0.5) ? r.range(1, 10) : r.range(10, 300)));
  if (r.chance(0.3)) add("chart_limit", N(r.range(1, 20)));
  add("debug", N(r.chance(0.8) ? 0 : 1));
  if (r.chance(0.3)) add("buffer", "false");
  if (r.chance(0.2) && !hiero) add("all_unk", "true");
  if (ctrg) add("consider_trg", "true");
  if (g_factors) add("trg_factors", "2");
  if (r.chance(0.2) && hiero && storage == "fsm") add("delete_unknown", "true");
  bool nb = r.chance(0.6), tr = r.chance(0.4), fo = r.chance(0.35);
  if (nb) { add("nbest", N(r.range(1, 12))); add("nbest_out", "@/nbest"); j.outputs.push_back("nbest"); if (r.chance(0.3)) add("nbest_uniq", "true"); if (r.chance(0.2) && !hiero) add("nbest_tree", "true"); }
  if (tr && storage != "cfg") { add("trace_out", "@/trace"); j.outputs.push_back("trace"); }
  if (fo) { add("forest_out", "@/forest"); j.outputs.push_back("forest"); if (r.chance(0.4)) add("forest_nbest_trim", N(r.range(1, 5))); }
  for (int i = 0; i < ns; ++i) {
    std::string u;
    if (fmt == "word") u = Join(sents[i]) + "\n"; else if (fmt == "penn") u = (holes && r.chance(0.3) ? "()" : Penn(trees[i])) + "\n"; else if (fmt == "egret") u = forests ? EgretForest(packed[i]) : Egret(trees[i]); else u = Moses(trees[i]) + "\n";
    j.units.push_back(u);
  }
  std::string in; for (auto& u : j.units) in += u;
  j.files["input"] = in; j.stdin_file = "input";
  j.what = "decoder sentences=" + N(ns) + " rules=" + storage + " lms=" + N(nlm) + " search=" + search + " in=" + fmt + (g_factors ? " factors=2" : "") + (g_coarse ? " ties" : "") + (j.binarise.empty() ? "" : " binary-lm") + (nb ? " nbest" : "") + (tr ? " trace" : "") + (fo ? " forest" : "") + (forests ? " packed" : "");
  return j;
}
// ==================================================================== tuning
static std::string Perturb(Rng& r, const SV& ref, const SV& vocab) {
  SV o; for (auto& w : ref) { if (r.chance(0.15)) continue; o.push_back(r.chance(0.25) ? vocab[r.below(vocab.size())] : w); if (r.chance(0.1)) o.push_back(vocab[r.below(vocab.size())]); }
  if (o.empty() && r.chance(0.9)) o.push_back(vocab[r.below(vocab.size())]);
  if (o.size() > 1 && r.chance(0.3)) std::swap(o[0], o[o.size() - 1]);
  return Join(o);
}
std::string GenNbest(Rng& r, const std::vector<SV>& refs, const SV& vocab, int maxn, int feats, bool dups) {
  std::string o;
  for (size_t i = 0; i < refs.size(); ++i) { int n = 1 + (int)r.below(maxn); std::string prev;
    for (int k = 0; k < n; ++k) {
      if (dups && k && r.chance(0.2)) { o += prev; continue; }
      std::string h = Perturb(r, refs[i], vocab), f; double sc = 0;
      for (int q = 0; q < feats; ++q) if (r.chance(0.85)) { double v = q == 0 ? -(double)r.below(9) : r.chance(0.3) ? (double)r.below(5) : (r.unit() * 4 - 2); sc += v; f += (f.empty() ? "" : " ") + std::string("f") + N(q) + "=" + S("%.5g", v); }
      if (r.chance(0.2)) f += (f.empty() ? "" : " ") + std::string("sp") + N((int)r.below(5)) + "=1";
      if (f.empty()) f = "f0=1";
      prev = N((int)i) + " ||| " + h + " ||| " + S("%.4f", sc) + " ||| " + f + "\n"; o += prev;
    } }
  return o;
}
static std::string Measure(Rng& r, bool simple) {
  static const char* all[] = {"bleu", "bleu:smooth=1,scope=corpus", "ribes", "ter", "wer", "nist", "zeroone", "interp:0.5|bleu|0.5|ribes", "ainterp:0.5|bleu|0.5|ribes", "bleu:order=2,smooth=1", "bleup1"};
  static const char* few[] = {"bleu", "bleu:smooth=1,scope=sentence", "ribes", "ter", "wer"};
  return simple ? few[r.below(5)] : all[r.below(11)];
}
static SV RangeVocab(const char* p, int n) { SV v; for (int i = 0; i < n; ++i) v.push_back(p + N(i)); return v; }
Job GenTune(Rng& r, int size, const std::string* forest, int forest_sents) {
  Job j; j.tool = "batch-tune"; j.fn = batch_tune_main; j.threads_arg = "-threads";
  SV vocab = RangeVocab("t", r.range(3, 9)); int ns = forest ? forest_sents : r.range(1, size);
  std::vector<SV> refs; std::string rf;
  for (int i = 0; i < ns; ++i) { SV w; int n = r.range(1, 7); for (int k = 0; k < n; ++k) w.push_back(vocab[r.below(vocab.size())]); refs.push_back(w); rf += Join(w) + "\n"; }
  j.files["ref"] = rf; j.args.push_back("@/ref");
  auto add = [&](const char* o, const std::string& v) { j.args.push_back(std::string("-") + o); j.args.push_back(v); };
  int feats = r.range(2, 5); std::string algo, meas = Measure(r, true);
  if (forest) { j.files["forest"] = *forest; add("forest", "@/forest"); algo = "mert"; if (r.chance(0.3)) algo = "greedy-mert"; }
  else {
    int nf = r.chance(0.3) ? 2 : 1; std::string l;
    for (int i = 0; i < nf; ++i) { std::string f = "nbest" + N(i); j.files[f] = GenNbest(r, refs, vocab, 6, feats, true); l += (i ? ",@/" : "@/") + f; }
    add("nbest", l);
    static const char* al[] = {"mert", "greedy-mert", "lbfgs", "online", "onlinepro"}; algo = al[r.chance(0.03) ? 4 : r.chance(0.02) ? 3 : r.below(3)];
  }
  bool heavy = algo == "onlinepro"; if (algo == "online" && r.chance(0.3)) { algo = "onlinepro"; heavy = true; }
  if (heavy) { ns = 1; std::vector<SV> r1(refs.begin(), refs.begin() + 1); j.files["ref"] = Join(r1[0]) + "\n"; for (auto& f : j.files) if (f.first.compare(0, 5, "nbest") == 0) f.second = GenNbest(r, r1, vocab, 5, feats, true); }
  if (algo == "lbfgs") meas = r.chance(0.8) ? "bleu" : "bleu:smooth=1,scope=sentence";
  add("algorithm", algo); add("eval", meas); add("rand_seed", N(r.range(1, 1000))); add("restarts", N(heavy ? 0 : r.range(0, 4))); add("debug", r.chance(0.1) ? "1" : "0");
  if (algo == "mert") { static const char* d[] = {"coord", "coord rand=2", "rand=3", "coord xeval=0.1:10:10"}; add("mert_directions", d[r.below(forest ? 3 : 4)]); }
  if (algo[0] == 'o') { static const char* u[] = {"perceptron", "avgperceptron", "adagrad"}; add("update", u[r.below(3)]); if (r.chance(0.5)) add("rate", S("%.3f", 0.01 + r.unit())); if (r.chance(0.3)) add("margin_scale", "0.5"); }
  if (algo == "lbfgs" && r.chance(0.4)) add("l2", "0.01");
  if (r.chance(0.7)) { std::string w; if (forest) w = "p=0.3 w=-0.2 ppen=0.1 unk=-2 lm=0.4"; else for (int i = 0; i < feats; ++i) w += (i ? " " : "") + std::string("f") + N(i) + "=" + S("%.3f", r.unit()); j.files["weights"] = w + "\n"; add("weight_in", "@/weights"); }
  if (r.chance(0.3)) add("weight_ranges", r.chance(0.5) ? "0|1" : "0|1|f0 0|2|f1");
  if (r.chance(0.2)) add("threshold", "0.01");
  j.what = "tuning algorithm=" + algo + " eval=" + meas + (forest ? " forest" : " nbest") + " sentences=" + N(ns);
  return j;
}
// ==================================================================== the other programs
static std::string JsonTree(const T& root) {
  std::string nodes, edges; int nn = 0, ne = 0; SV words; Leaves(root, words); int pos = 0;
  std::function<int(const T&)> rec = [&](const T& t) {
    int id = nn++; size_t at = nodes.size(); (void)at; int from = pos; std::vector<int> tails; std::string mine;
    // the node text needs the span, which is known after the children: reserve the order with a marker
    nodes += "\x01" + N(id) + "\x02"; int eid = t.leaf ? -1 : ne++; if (eid >= 0) edges += "\x01" + N(eid) + "\x02";
    if (t.leaf) pos++; else for (auto& c : t.c) tails.push_back(rec(c));
    mine = std::string(id ? ", " : "") + "{\"id\": " + N(id) + ", \"sym\": \"" + t.l + "\", \"span\": [" + N(from) + ", " + N(pos) + "]}";
    std::string m = "\x01" + N(id) + "\x02"; nodes.replace(nodes.find(m), m.size(), mine);
    if (eid >= 0) { std::string e = std::string(eid ? ", " : "") + "{\"id\": " + N(eid) + ", \"head\": " + N(id) + ", \"tails\": ["; for (size_t i = 0; i < tails.size(); ++i) e += (i ? ", " : "") + N(tails[i]); e += "]}"; std::string em = "\x01" + N(eid) + "\x02"; edges.replace(edges.find(em), em.size(), e); }
    return id;
  };
  rec(root);
  std::string w; for (auto& x : words) w += (w.empty() ? "\"" : ", \"") + x + "\"";
  return "{\"nodes\": [" + nodes + "], \"edges\": [" + edges + "], \"words\": [" + w + "]}";
}
static std::string RuleTree(const T& t) { if (t.leaf) return "\"" + t.l + "\""; std::string s = t.l + " ("; for (auto& c : t.c) s += " " + RuleTree(c); return s + " )"; }
static std::string Align(Rng& r, int ns, int nt) {
  std::string o; bool mono = r.chance(0.6);
  for (int i = 0; i < ns; ++i) { if (r.chance(0.15)) continue; int k = r.chance(0.15) ? 2 : 1; for (int q = 0; q < k; ++q) { int t = mono ? std::min(nt - 1, i + (r.chance(0.3) ? 1 : 0)) : (int)r.below(nt); std::string e = N(i) + "-" + N(t); if ((" " + o + " ").find(" " + e + " ") == std::string::npos) o += (o.empty() ? "" : " ") + e; } }
  return o;
}
static std::string Sent(Rng& r, const SV& v, int lo, int hi) { SV w; int n = r.range(lo, hi); for (int k = 0; k < n; ++k) w.push_back(v[r.below(v.size())]); return Join(w); }
static std::string RawText(Rng& r) {
  static const char* w[] = {"I", "can't", "don't", "(hello)", "world.", "\"quoted\"", "a,b", "3.14", "$5", "it's", "U.S.", "e.g.", "wait...", "--", "50%", "caf\xc3\xa9", "x/y", "[x]", "we'll", "end?", "gonna", "A", "--more"};
  std::string o; int n = r.below(12); for (int i = 0; i < n; ++i) o += (i ? " " : "") + std::string(w[r.below(23)]); return o;
}
Job GenTool(Rng& r, int size) {
  Job j; int kind = r.below(11);
  auto add = [&](const char* o, const std::string& v) { j.args.push_back(std::string("-") + o); j.args.push_back(v); };
  int ns = r.range(1, size), big = r.chance(0.15) ? 40 : 1;   // some inputs are larger than one I/O buffer
  SV vocab = RangeVocab("w", r.range(3, 9)); Tm m = GenVocab(r, r.range(3, 9), r.range(3, 9));
  switch (kind) {
    case 0: case 1: {   // tree-to-string extraction
      j.tool = "forest-extractor"; j.fn = forest_extractor_main; std::string a, b, c; int tf = r.chance(0.2) ? 1 : 0; bool json = r.chance(0.25);
      for (int i = 0; i < ns * big; ++i) { T t = GenTree(r, m.src, r.range(1, 8), 0); SV s; Leaves(t, s); int nt = r.range(1, 8);
        if (tf) { T u = GenTree(r, m.trg, nt, 0); b += Penn(u) + "\n"; } else { SV w; for (int k = 0; k < nt; ++k) w.push_back(m.trg[r.below(m.trg.size())]); b += Join(w) + "\n"; }
        a += (json ? JsonTree(t) : Penn(t)) + "\n"; c += Align(r, (int)s.size(), nt) + "\n"; }
      j.files["src"] = a; j.files["trg"] = b; j.files["align"] = c; j.args = {"@/src", "@/trg", "@/align"};
      if (json) add("input_format", "json"); if (tf) add("output_format", "penn");
      static const char* bi[] = {"none", "left", "right"}; add("binarize", bi[r.below(3)]); add("compose", N(r.range(1, 5)));
      static const char* at[] = {"top", "none", "exhaustive"}; add("attach", at[r.below(3)]); if (r.chance(0.4)) add("attach_len", N(r.range(1, 3)));
      if (r.chance(0.4)) add("normalize_probs", "true"); if (r.chance(0.2)) add("partial_count_thresh", "0.05"); if (r.chance(0.1)) add("count_rules", "true");
      if (r.chance(0.3)) add("term_len", N(r.range(1, 10))); if (r.chance(0.3)) add("nonterm_len", N(r.range(1, 4))); break; }
    case 2: {
      j.tool = "hiero-extractor"; j.fn = hiero_extractor_main; std::string a, b, c;
      for (int i = 0; i < ns * std::min(big, 15); ++i) { int x = r.range(1, 7), y = r.range(1, 7); a += Sent(r, m.src, x, x) + "\n"; b += Sent(r, m.trg, y, y) + "\n"; c += Align(r, x, y) + "\n"; }
      j.files["src"] = a; j.files["trg"] = b; j.files["align"] = c; j.args = {"@/src", "@/trg", "@/align"};
      if (r.chance(0.4)) add("max_initial_phrase", N(r.range(2, 10))); if (r.chance(0.4)) add("max_terminals", N(r.range(1, 5))); break; }
    case 3: {
      j.tool = "mt-evaluator"; j.fn = mt_evaluator_main; std::string ref; std::vector<SV> refs;
      for (int i = 0; i < ns * big; ++i) { SV w; int n = r.range(1, 8); for (int k = 0; k < n; ++k) w.push_back(vocab[r.below(vocab.size())]); refs.push_back(w); ref += Join(w) + "\n"; }
      j.files["ref"] = ref; int nsys = r.range(1, 3);
      for (int s = 0; s < nsys; ++s) { std::string t; for (auto& x : refs) t += Perturb(r, x, vocab) + "\n"; j.files["sys" + N(s)] = t; j.args.push_back("@/sys" + N(s)); }
      add("ref", "@/ref"); std::string e = Measure(r, false); if (r.chance(0.6)) e += " " + Measure(r, true); add("eval", e);
      if (r.chance(0.3)) add("sent", "true"); if (nsys > 1 && r.chance(0.6)) add("bootstrap", N(r.range(1, 30))); break; }
    case 4: {
      j.tool = "mt-segmenter"; j.fn = mt_segmenter_main; std::string ref, sys; std::vector<SV> refs; ns = std::min(ns, 3);
      for (int i = 0; i < ns; ++i) { SV w; int n = r.range(2, 5); for (int k = 0; k < n; ++k) w.push_back(vocab[r.below(vocab.size())]); refs.push_back(w); ref += Join(w) + "\n"; }
      for (auto& x : refs) { sys += Perturb(r, x, vocab); sys += r.chance(0.3) ? "\n" : " "; } sys += "\n";
      j.files["ref"] = ref; j.files["sys"] = sys; j.args = {"@/sys"}; add("ref", "@/ref"); static const char* e[] = {"bleu:smooth=1", "ribes", "wer", "ter"}; add("eval", e[r.below(4)]); break; }
    case 5: {
      j.tool = "rescorer"; j.fn = rescorer_main; std::vector<SV> refs; for (int i = 0; i < ns * std::min(big, 10); ++i) { SV w; int n = r.range(1, 6); for (int k = 0; k < n; ++k) w.push_back(vocab[r.below(vocab.size())]); refs.push_back(w); }
      int feats = r.range(2, 4); j.files["nb"] = GenNbest(r, refs, vocab, 7, feats, true);
      if (r.chance(0.5)) { if (r.chance(0.2)) { j.files["nb.gz"] = Gzip(j.files["nb"]); j.files.erase("nb"); } add("nbest", "@/nb"); } else j.stdin_file = "nb";
      if (r.chance(0.6)) { add("nbest_out", "@/nbout"); j.outputs.push_back("nbout"); }
      if (r.chance(0.6)) { std::string w; for (int i = 0; i < feats; ++i) w += (i ? " " : "") + std::string("f") + N(i) + "=" + S("%.3f", r.unit() - 0.3); j.files["weights"] = w + "\n"; add("weight_in", "@/weights"); }
      if (r.chance(0.6)) { add("mbr_eval", r.chance(0.5) ? "bleu:smooth=1,scope=sentence" : "ribes"); add("mbr_scale", S("%.2f", 0.2 + r.unit())); if (r.chance(0.5)) add("mbr_hyp_cnt", N(r.range(1, 5))); } break; }
    case 6: {
      j.tool = "tokenizer"; j.fn = tokenizer_main; std::string t; for (int i = 0; i < ns * big; ++i) t += RawText(r) + "\n"; if (r.chance(0.2)) t.pop_back(); j.files["text"] = t; j.stdin_file = "text"; break; }
    case 7: {
      j.tool = "train-caser"; j.fn = train_caser_main; static const char* w[] = {"The", "the", "House", "house", "HOUSE", "in", "In", "Paris", ".", ",", "\"", "McDonald", "caf\xc3\xa9", "\xc3\x89t\xc3\xa9"}; std::string t;
      for (int i = 0; i < ns * big * 2; ++i) { int n = r.below(9); for (int k = 0; k < n; ++k) t += (k ? " " : "") + std::string(w[r.below(14)]); t += "\n"; } j.files["text"] = t; j.stdin_file = "text"; break; }
    case 8: {   // online tuning inside the decoder
      j = GenDecode(r, std::min(size, 4)); std::string ref; for (size_t i = 0; i < j.units.size(); ++i) ref += Sent(r, RangeVocab("t", 8), 1, 5) + "\n";
      j.files["tref"] = ref; j.threads_arg = ""; for (size_t i = 0; i + 1 < j.args.size(); ++i) if (j.args[i] == "-trace_out" || j.args[i] == "-forest_out" || j.args[i] == "-nbest_out") { if (r.chance(0.3) && j.args[i] != "-forest_out") { j.outputs.erase(std::find(j.outputs.begin(), j.outputs.end(), j.args[i + 1].substr(2))); j.args[i + 1] = "STDOUT"; break; } }
      if (r.chance(0.7)) { j.files["conf.ini"] += "[tune_ref_files]\n@/tref\n\n"; add("tune_update", r.chance(0.5) ? "perceptron" : "adagrad"); add("tune_weight_out", "@/tw"); j.outputs.push_back("tw"); add("tune_loss", "bleu:smooth=1,scope=sentence"); j.what += " online tuning"; } return j; }
    default: {
      j.tool = "tree-converter"; j.fn = tree_converter_main; static const char* in[] = {"penn", "json", "egret", "word", "rule"}; static const char* out[] = {"penn", "json", "egret", "word", "mosesxml", "rule"};
      int fi = r.below(5); std::string t; SV words = m.src; for (int i = 0; i < 3; ++i) { words.push_back("ab-cd" + N(i)); words.push_back("Sunflower" + N(i)); }
      for (int i = 0; i < ns * big; ++i) { T x = GenTree(r, words, r.range(1, 8), 0); SV w; Leaves(x, w); t += fi == 0 ? Penn(x) + "\n" : fi == 1 ? JsonTree(x) + "\n" : fi == 2 ? Egret(x) : fi == 3 ? Join(w) + "\n" : RuleTree(x) + "\n"; }
      j.files["trees"] = t; if (r.chance(0.5)) j.stdin_file = "trees"; else j.args.push_back("@/trees");
      add("input_format", in[fi]); add("output_format", out[r.below(6)]); static const char* bi[] = {"none", "left", "right", "cky"}; add("binarize", bi[r.below(4)]);
      if (r.chance(0.3)) add("split", "[-]"); if (r.chance(0.3)) add("flatten", "true");
      if (r.chance(0.3)) { int k = r.below(3); if (k == 2) { j.files["case"] = "Sunflower0\nSunflower1\ncaf\xc3\xa9\n"; add("case", "true:model=@/case"); } else add("case", k ? "low" : "title"); }
      if (r.chance(0.2)) { j.files["cs.arpa"] = GenArpa(r, SV{"Sun", "flower0", "flower1", "sun", "flower", "s1", "Sunflower1"}, 2, true); add("compoundsplit", "@/cs.arpa"); }
      j.what = std::string(in[fi]) + "->"; for (size_t i = 0; i + 1 < j.args.size(); ++i) if (j.args[i] == "-output_format") j.what += j.args[i + 1]; break; }
  }
  j.what = j.tool + " " + j.what + " lines=" + N(ns * big); for (auto& a : j.args) if (a[0] == '-' && a.size() > 1) j.what += " " + a;
  return j;
}
Job GenLm(Rng& r, int size) {
  Job j; int kind = r.below(7); SV words = RangeVocab("c", r.range(4, 14));
  auto add = [&](const std::string& o, const std::string& v) { j.args.push_back(o); j.args.push_back(v); };
  auto model = [&](Job& b, const std::string& out) {
    std::string type = r.chance(0.4) ? "probing" : "trie"; b.tool = "build_binary"; b.fn = build_binary_main; b.args.clear();
    if (type == "trie") { if (r.chance(0.35)) { b.args.push_back("-q"); b.args.push_back(N(r.range(2, 12))); if (r.chance(0.5)) { b.args.push_back("-b"); b.args.push_back(N(r.range(2, 12))); } } if (r.chance(0.35)) { b.args.push_back("-a"); b.args.push_back(N(r.range(1, 60))); } }
    else if (r.chance(0.4)) { b.args.push_back("-p"); b.args.push_back(S("%.2f", 1.1 + r.unit())); }
    if (r.chance(0.5)) { b.args.push_back("-w"); b.args.push_back(r.chance(0.5) ? "mmap" : "after"); }
    b.args.push_back("-S"); b.args.push_back("1M"); b.args.push_back("-T"); b.args.push_back("@/tmp"); b.args.push_back(type); b.args.push_back("@/model.arpa"); b.args.push_back("@/" + out); b.outputs = {out};
    b.files["model.arpa"] = GenArpa(r, words, r.range(2, 4), r.chance(0.8));
    if (r.chance(0.15)) { b.files["model.arpa.gz"] = Gzip(b.files["model.arpa"]); b.files.erase("model.arpa"); for (auto& a : b.args) if (a == "@/model.arpa") a += ".gz"; }
    b.what = "build_binary " + Join(b.args);
  };
  if (kind <= 1) {
    j.tool = "lmplz"; j.fn = lmplz_main; j.files["text"] = GenCorpus(r, r.range(2, 6 * size), r.range(3, 15), 9, true);
    add("-o", N(r.range(1, 4))); add("-T", "@/tmp"); add("-S", r.chance(0.5) ? "64K" : "1M"); int mb = r.range(1, 4); add("--minimum_block", N(mb) + "K"); add("--sort_block", N(r.chance(0.05) ? 1 : r.range(mb, 8)) + "K"); add("--vocab_estimate", N(r.range(1, 100)));
    if (r.chance(0.5)) add("--block_count", N(r.range(2, 5)));
    if (r.chance(0.6)) { add("--text", "@/text"); if (r.chance(0.2)) { j.files["text.gz"] = Gzip(j.files["text"]); j.args.back() = "@/text.gz"; j.files.erase("text"); } } else j.stdin_file = "text";
    if (r.chance(0.6)) { add("--arpa", "@/out.arpa"); j.outputs.push_back("out.arpa"); }
    if (r.chance(0.3)) add("--interpolate_unigrams", N(r.below(2)));
    if (r.chance(0.2)) j.args.push_back("--skip_symbols");
    if (r.chance(0.3)) { j.args.push_back("--prune"); j.args.push_back("0"); j.args.push_back(N(r.range(0, 2))); }
    if (r.chance(0.15)) { j.files["lv"] = Sent(r, words, 2, 9) + "\n"; add("--limit_vocab_file", "@/lv"); }
    if (r.chance(0.85)) j.args.push_back("--discount_fallback");
    j.what = "lmplz " + Join(j.args);
  } else if (kind <= 3) { model(j, "model.bin"); }
  else if (kind == 4) {
    j.tool = "query"; j.fn = query_main; Job b; std::string file = "model.arpa"; model(b, "model.bin");
    j.files = b.files; if (j.files.count("model.arpa.gz")) file += ".gz";
    if (r.chance(0.75)) { JobPrepare(b, g_env.scratch); JobResult res; Plan p; p.strategy = 0; p.step_limit = 20000000; Outcome o = JobRun(b, p, g_env.scratch, 0, &res); if (o.ok_exit()) { j.files.clear(); j.files["model.bin"] = res.out["model.bin"]; file = "model.bin"; } }
    if (r.chance(0.3)) j.args.push_back("-n"); if (r.chance(0.3)) j.args.push_back("-s"); if (r.chance(0.6)) { static const char* l[] = {"lazy", "populate", "read", "parallel"}; j.args.push_back("-l"); j.args.push_back(l[r.below(4)]); }
    j.args.push_back("@/" + file); j.files["text"] = ""; for (int i = r.range(1, 4 * size); i > 0; --i) j.files["text"] += Sent(r, words, 0, 7) + (r.chance(0.1) ? " zzz" : "") + "\n"; j.stdin_file = "text";
    j.what = "query " + Join(j.args);
  } else {
    j.tool = "filter"; j.fn = filter_main; static const char* md[] = {"copy", "single", "multiple", "union"}; int k = r.below(4); j.args.push_back(md[k]);
    if (k >= 2 && r.chance(0.4)) j.args.push_back("phrase"); if (k && r.chance(0.3)) j.args.push_back("context");
    bool raw = r.chance(0.35); if (raw) { j.args.push_back("raw"); std::string t; for (int i = r.range(1, 40); i > 0; --i) t += Sent(r, words, 1, 4) + "\t" + N(r.range(1, 99)) + "\n"; j.files["model"] = t; } else j.files["model"] = GenArpa(r, words, r.range(2, 4), r.chance(0.8));
    j.args.push_back("threads:" + N(r.range(1, 4))); j.args.push_back("batch_size:" + N(r.range(1, 12)));
    std::string voc; int nsn = k == 1 ? 1 : r.range(1, 4); for (int i = 0; i < nsn; ++i) { voc += Sent(r, words, 1, 6); if (j.args.size() > 1 && j.args[1] == "phrase") for (int q = r.below(3); q > 0; --q) voc += "\t" + Sent(r, words, 1, 3); voc += "\n"; } j.files["vocab"] = voc;
    if (r.chance(0.5)) { j.args.push_back("vocab:@/vocab"); j.stdin_file = "model"; } else { j.args.push_back("model:@/model"); j.stdin_file = "vocab"; }
    j.args.push_back("@/filtered"); if (k == 2) for (int i = 0; i < nsn; ++i) j.outputs.push_back("filtered" + N(i)); else j.outputs.push_back("filtered");
    j.what = "filter " + Join(j.args);
  }
  return j;
}
