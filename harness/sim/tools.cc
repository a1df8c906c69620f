// The small text tools: rescorer, mt-segmenter, train-caser, tokenizer, each against its definition.
#include "jobs.h"
#include "lmref.h"
#include "evalref.h"
#include <algorithm>
using namespace dsim;
int rescorer_main(int, char**); int mt_segmenter_main(int, char**); int train_caser_main(int, char**); int tokenizer_main(int, char**);
namespace {
typedef std::map<std::string, double> Feat;
struct Hyp { SV words; double score; Feat f; };
struct List { std::string id; std::vector<Hyp> h; bool skip = false; };
struct ToolW : Workload {
  Job j; bool usable = true; int kind = 0; std::string Describe() { return j.what; }
  std::vector<List> lists; bool nbest = false;                                      // rescorer
  Spec m; Facts facts; std::vector<SV> refs; SV sys; double slack = 2, best = 0; bool feasible = true, judge = false;      // segmenter
  std::vector<std::string> lines; std::map<std::string, std::map<std::string, int>> counts; SV want; bool penn = true, exact = false;
};
std::string G(double d, int digits = 6) { char b[40]; snprintf(b, sizeof b, "%.*g", digits, d); return b; }
bool Close(double a, double b) { return a == b || std::fabs(a - b) <= 2e-5 * std::max({std::fabs(a), std::fabs(b), 1e-6}); }
// ---- rescorer
void Rescore(ToolW& x, const Feat* w, const Spec* m, double scale, int keep) {
  for (auto& l : x.lists) {
    if (w) for (auto& h : l.h) { h.score = 0; for (auto& f : h.f) { auto it = w->find(f.first); if (it != w->end()) h.score += f.second * it->second; } }
    if (!m) continue;
    if (keep && (int)l.h.size() > keep) {
      std::stable_sort(l.h.begin(), l.h.end(), [](const Hyp& a, const Hyp& b) { return a.score > b.score; });
      if (std::fabs(l.h[keep - 1].score - l.h[keep].score) <= 1e-9 * (1 + std::fabs(l.h[keep].score))) { l.skip = true; continue; } l.h.resize(keep); g_env.Reach("mbr_trimmed");
    }
    double top = -HUGE_VAL, z = 0; for (auto& h : l.h) top = std::max(top, h.score); std::map<SV, double> p; for (auto& h : l.h) z += std::exp((h.score - top) * scale); for (auto& h : l.h) p[h.words] += std::exp((h.score - top) * scale) / z;
    for (auto& h : l.h) { h.score = 0; for (auto& q : p) { double s = Score(*m, Measure(*m, x.facts, {q.first}, {h.words})); if (std::isnan(s) || std::isinf(s)) x.usable = false; h.score += q.second * s; } }
  }
}
// ---- segmenter: the best division, from the back
struct Cell { bool ok = false; Stats s; double score = 0; int next = 0; };
bool Best(ToolW& x, bool* ambiguous) {
  bool nan = false;
  int R = x.refs.size(), S = x.sys.size(); std::vector<Cell> last(S + 1), cur(S + 1); *ambiguous = false;
  for (int r = R - 1; r >= 0; --r) {
    int most = (int)(x.slack * x.refs[r].size());
    for (int b = 0; b <= S; ++b) {
      Cell c; for (int e = r == R - 1 ? S : b; e <= std::min(S, b + most); ++e) {
        if (r < R - 1 && !last[e].ok) continue; Stats s = Measure(x.m, x.facts, {x.refs[r]}, {SV(x.sys.begin() + b, x.sys.begin() + e)}); if (r < R - 1) Add(s, last[e].s); double y = Score(x.m, s); if (std::isnan(y) || std::isinf(y)) { *ambiguous = true; nan = true; continue; }
        if (c.ok && y != c.score && std::fabs(y - c.score) < 1e-9) *ambiguous = true; if (c.ok && y == c.score && y != 0 && s.v != c.s.v) *ambiguous = true;
        if (!c.ok || y > c.score) { c.ok = true; c.s = s; c.score = y; c.next = e; }
      } cur[b] = c;
    } last = cur;
  }
  if (!R) return !S; x.best = nan ? Undef() : last[0].score; return last[0].ok;
}
bool Additive(const Spec& s) { for (auto& q : s.sub) if (!Additive(q)) return false; return s.kind == "wer" || s.kind == "zeroone" || s.kind == "ribes" || s.kind == "interp" || (s.kind == "bleu" && s.sentence); }
bool Uses(const Spec& s, const char* k) { for (auto& q : s.sub) if (Uses(q, k)) return true; return s.kind == k; }
// ---- tokenizer: pieces of text whose Penn treebank tokens are known, whatever stands beside them
const char* kPieces[][2] = {
  {"Hello", "Hello"}, {"Hello,", "Hello ,"}, {"end.", "end ."}, {"Mr.", "Mr."}, {"Dr.", "Dr."}, {"U.S.", "U.S."}, {"p.m.", "p.m."}, {"etc.", "etc."}, {"don't", "do n't"}, {"CAN'T", "CA N'T"}, {"it's", "it 's"}, {"we'll", "we 'll"}, {"WE'LL", "WE 'LL"}, {"I'm", "I 'm"}, {"x'd", "x 'd"}, {"x've", "x 've"}, {"they're", "they 're"},
  {"cannot", "can not"}, {"Cannot", "Can not"}, {"gonna", "gon na"}, {"Wanna", "Wan na"}, {"gimme", "gim me"}, {"lemme", "lem me"}, {"gotta", "got ta"}, {"D'ye", "D' ye"}, {"(x)", "-LRB- x -RRB-"}, {"[1]", "-LSB- 1 -RSB-"}, {"{y}", "-LCB- y -RCB-"}, {"(", "-LRB-"}, {"<b>", "< b >"}, {"$5", "$ 5"}, {"50%", "50 %"}, {"#1", "# 1"}, {"@x", "@ x"}, {"R&D", "R & D"}, {"a=b", "a = b"}, {"x;", "x ;"}, {"2*3", "2 * 3"},
  {"a--b", "a -- b"}, {"5,000", "5,000"}, {"3:15", "3:15"}, {"a:b", "a : b"}, {"a,1", "a , 1"}, {"1,a", "1 , a"}, {"1,", "1 ,"}, {"\"x\"", "`` x ''"}, {"'x'", "` x '"}, {"\"one", "`` one"}, {"two\"", "two ''"}, {"dogs'", "dogs '"}, {"x...", "x ..."}, {"what?", "what ?"}, {"no!", "no !"}, {"a/b", "a/b"}, {"e-mail", "e-mail"}, {"No.5", "No. 5"}, {"vol.7", "vol. 7"}, {"fig.3", "fig. 3"}, {"10kg", "10 kg"}, {"10Hz", "10 Hz"}, {"3mm", "3 mm"}, {"1.5", "1.5"},
  {"foo.)", "foo . -RRB-"}, {"bar.\"", "bar . ''"}, {"\xe2\x80\xa6", "..."}, {"\xe2\x80\x93", "--"}, {"caf\xc3\xa9", "caf\xc3\xa9"}, {"caf\xc3\xa9.", "caf\xc3\xa9 ."}, {"\xe2\x80\x9cx\xe2\x80\x9d", "\xe2\x80\x9c x \xe2\x80\x9d"}, {"\xc2\xabx\xc2\xbb", "\xc2\xab x\xc2\xbb"}, {"\xe6\x97\xa5\xe6\x9c\xac", "\xe6\x97\xa5\xe6\x9c\xac"}, {"don't,", "do n't ,"}, {"it's.", "it 's ."}, {"Jan.", "Jan."}, {"b.", "b ."}, {"J.", "J."}, {"more'n", "more 'n"}};
std::string Bare(std::string s) {      // the characters that tokenising neither adds nor removes
  static const char* m[][2] = {{"-LRB-", "("}, {"-RRB-", ")"}, {"-LSB-", "["}, {"-RSB-", "]"}, {"-LCB-", "{"}, {"-RCB-", "}"}, {"\xe2\x80\xa6", "..."}, {"\xe2\x80\x93", "--"}}; std::string o;
  for (char c : s) if (c != ' ' && c != '\'' && c != '`' && c != '"') o += c; s = o; for (auto& q : m) { size_t i = 0, n = strlen(q[0]); while ((i = s.find(q[0], i)) != std::string::npos) { s.replace(i, n, q[1]); i += strlen(q[1]); } } return s;
}
std::string Low(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == 0xC3 && i + 1 < s.size() && (unsigned char)s[i + 1] >= 0x80 && (unsigned char)s[i + 1] < 0x9F) { o += s[i]; o += (char)(s[i + 1] + 0x20); ++i; } else o += c >= 'A' && c <= 'Z' ? (char)(c + 32) : (char)c; } return o; }
SV Mutate(Rng& r, SV x, const SV& v, int n) { for (; n > 0; --n) { int at = x.empty() ? 0 : r.below(x.size()); switch (r.below(4)) { case 0: if (!x.empty()) x.erase(x.begin() + at); break; case 1: x.insert(x.begin() + at, v[r.below(v.size())]); break; case 2: if (!x.empty()) x[at] = v[r.below(v.size())]; break; default: if (x.size() > 1) std::swap(x[at], x[r.below(x.size())]); } } return x; }
struct ToolProp : Prop {
  const char* Name() { return "text-tools-exact"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<ToolW>(new ToolW); ToolW& x = *w; Job& j = x.j; x.kind = r.below(8);
    SV v; for (int i = r.range(2, 12); i > 0; --i) v.push_back("w" + N(i)); v.push_back("|"); v.push_back("a=b"); v.push_back("\xe6\x97\xa5"); auto opt = [&](const char* k, const std::string& s) { j.args.push_back(k); j.args.push_back(s); };
    if (x.kind < 3) {
      j.tool = "rescorer"; j.fn = rescorer_main; SV fs; for (int i = r.range(1, 8); i > 0; --i) fs.push_back(r.chance(0.1) ? "lm=" + N(i) : "f" + N(i)); x.nbest = r.chance(0.8); bool use_w = r.chance(0.6), mbr = r.chance(0.6); std::string body; int id = r.chance(0.7) ? 0 : r.range(0, 3); bool down = r.chance(0.2);
      for (int i = r.range(1, 6); i > 0; --i) {
        List l; l.id = N(id); SV base; for (int k = r.range(0, 8); k > 0; --k) base.push_back(v[r.below(v.size())]); bool tie = r.chance(0.2);
        for (int k = r.range(1, r.chance(0.1) ? 40 : 8); k > 0; --k) { Hyp h; h.words = Mutate(r, base, v, r.below(4)); h.score = tie ? r.range(-2, 2) : r.range(-90000, 90000) / 10000.0; if (r.chance(0.03)) h.score *= 100; for (auto& f : fs) if (r.chance(0.6)) h.f[f] = r.chance(0.3) ? r.range(1, 4) : r.range(1, 9999) / 1000.0 * (r.chance(0.5) ? -1 : 1); if (!l.h.empty() && r.chance(0.15)) h.words = l.h[r.below(l.h.size())].words; l.h.push_back(h); }
        for (auto& h : l.h) { std::string ft; for (auto& f : h.f) ft += (ft.empty() ? "" : " ") + f.first + "=" + G(f.second, 10); body += l.id + " ||| " + Join(h.words) + " ||| " + G(h.score, 12) + " ||| " + ft + "\n"; }
        x.lists.push_back(l); id += down && id > 0 && r.chance(0.5) ? -1 : r.chance(0.75) ? 1 : r.range(2, 5);
      }
      Feat wt; if (use_w) { std::string t; for (auto& f : fs) if (r.chance(0.8)) { wt[f] = r.range(-3000, 3000) / 1000.0; t += f + "=" + G(wt[f], 10) + (r.chance(0.5) ? "\n" : " "); } t += "other=3\n"; j.files["w"] = t; opt("-weight_in", "@/w"); g_env.Reach("reweighted"); }
      double scale = 1; int keep = 0; if (mbr) { do x.m = RandSpec(r, 1, 0, true); while (Uses(x.m, "ter") || Uses(x.m, "nist") || x.m.kind == "ainterp"); x.facts = Learn(x.m, {}); opt("-mbr_eval", x.m.text); if (r.chance(0.5)) { static const double sc[] = {0.1, 0.5, 2, 5, 0}; scale = sc[r.below(5)]; opt("-mbr_scale", G(scale)); } if (r.chance(0.4)) { keep = r.range(1, 6); opt("-mbr_hyp_cnt", N(keep)); } g_env.Reach("mbr"); }
      if (x.nbest) { opt("-nbest_out", "@/out"); j.outputs.push_back("out"); } j.files["nb"] = body; if (r.chance(0.5)) opt("-nbest", "@/nb"); else { j.stdin_file = "nb"; if (r.chance(0.3)) opt("-nbest", "-"); }
      Rescore(x, use_w ? &wt : nullptr, mbr ? &x.m : nullptr, scale, keep); j.what = "rescorer lists=" + N(x.lists.size());
    } else if (x.kind < 6) {
      j.tool = "mt-segmenter"; j.fn = mt_segmenter_main; do x.m = RandSpec(r, 1, 0, true); while (Uses(x.m, "ter") || Uses(x.m, "nist") || x.m.kind == "ainterp" || (r.chance(0.6) && !Additive(x.m)));
      if (r.chance(0.5)) { static const double s[] = {1, 1.5, 1.1, 3, 0.5, 10}; x.slack = s[r.below(6)]; opt("-slack", G(x.slack)); } std::string t; int nr = r.chance(0.03) ? 0 : r.range(1, 6); std::vector<std::vector<SV>> all;
      for (int i = 0; i < nr; ++i) { SV s; for (int k = r.chance(0.05) ? 0 : r.range(1, r.chance(0.1) ? 15 : 6); k > 0; --k) s.push_back(v[r.below(v.size())]); x.refs.push_back(s); all.push_back({s}); t += Join(s) + "\n"; SV q = r.chance(0.3) ? s : Mutate(r, s, v, r.below(4)); x.sys.insert(x.sys.end(), q.begin(), q.end()); } j.files["ref"] = t;
      if (r.chance(0.08)) for (int k = r.range(1, 20); k > 0; --k) x.sys.push_back(v[r.below(v.size())]); std::string b; for (size_t i = 0; i < x.sys.size(); ++i) b += x.sys[i] + (i + 1 == x.sys.size() || r.chance(0.2) ? "\n" : r.chance(0.05) ? "  " : " "); j.files["sys"] = b;
      if (r.chance(0.1)) { x.m = Spec(); x.m.kind = "bleu"; x.m.smooth = 1; } else opt("-eval", x.m.text); opt("-ref", "@/ref"); j.args.push_back("@/sys"); x.facts = Learn(x.m, all);
      bool amb; Best(x, &amb); size_t room = 0; for (auto& q : x.refs) room += (int)(x.slack * q.size()); x.feasible = room >= x.sys.size(); x.judge = !amb || Additive(x.m); if (std::isnan(x.best)) x.usable = false;
      j.what = "mt-segmenter " + x.m.text + " refs=" + N(nr) + " words=" + N(x.sys.size());
    } else if (x.kind < 7) {
      j.tool = "train-caser"; j.fn = train_caser_main; static const char* ws[] = {"The", "the", "THE", "\xc3\x84rger", "\xc3\xa4rger", "iOS", "IOS", ".", ":", "!", "(", "\"", "``", "'", "?", ",", "a", "A", "x.", "\xe6\x97\xa5", "\xc3\x89T\xc3\x89", "\xc3\xa9t\xc3\xa9"}; SV voc; for (int i = r.range(2, 12); i > 0; --i) voc.push_back(ws[r.below(22)]);
      static const std::set<std::string> ends = {".", ":", "!", "?"}, delay = {"(", "[", "\"", "'", "`", "``"}; std::string t;
      for (int i = r.range(0, 12); i > 0; --i) { SV s; for (int k = r.range(0, 10); k > 0; --k) s.push_back(voc[r.below(voc.size())]); t += Join(s) + "\n"; bool start = true; for (size_t k = 0; k < s.size(); ++k) { bool first = !k; if (ends.count(s[k])) start = true; else if (!delay.count(s[k])) { first = first || start; start = false; } if (!first) ++x.counts[Low(s[k])][s[k]]; } }
      j.files["in"] = t; j.stdin_file = "in"; j.what = "train-caser words=" + N(x.counts.size());
    } else {
      j.tool = "tokenizer"; j.fn = tokenizer_main; x.penn = r.chance(0.85); x.exact = !x.penn || r.chance(0.6); if (!x.penn) opt("-type", "none"); else if (r.chance(0.5)) opt("-type", "penn"); std::string t;
      for (int i = r.range(1, 8); i > 0; --i) {
        std::string l, o; if (x.exact && x.penn) { for (int k = r.range(0, 8); k > 0; --k) { auto& q = kPieces[r.below(sizeof kPieces / sizeof *kPieces)]; l += (l.empty() ? (r.chance(0.05) ? " " : "") : r.chance(0.05) ? "  " : " ") + std::string(q[0]); o += (o.empty() ? "" : " ") + std::string(q[1]); } if (r.chance(0.05)) l += " "; }
        else { for (int k = r.range(0, 60); k > 0; --k) { static const char* ch[] = {" ", " ", "a", "b", "Z", "1", "2", ",", ".", "'", "\"", "-", "(", ")", "[", "$", ":", "!", "`", "n't", "'s", "\xc3\xa9", "...", "--", "%"}; l += ch[r.below(25)]; } o = l; }
        t += l + "\n"; x.lines.push_back(l); x.want.push_back(o);
      }
      j.files["in"] = t; j.stdin_file = "in"; j.what = "tokenizer lines=" + N(x.lines.size());
    }
    JobPrepare(j, g_env.scratch); g_env.Reach(j.tool); return std::unique_ptr<Workload>(w.release());
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { if (!((ToolW&)ww).usable || k >= 2) return false; p = Plain(); if (k) RandomBenignIo(r, p); return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    ToolW& x = (ToolW&)ww; JobResult got; o = JobRun(x.j, p, g_env.scratch, 0, &got); Violation v = Universal(o, false); if (v.bad()) return v;
    std::string text = ReadFile(g_env.scratch + "/stdout"); SV l = Lines(text);
    if (x.kind >= 3 && x.kind < 6 && !x.feasible) { if (o.ok_exit()) return {"words-lost", "the segmenter divided " + N(x.sys.size()) + " words into segments that cannot hold them"}; g_env.Reach("segmentation_refused"); return v; }
    if (!o.ok_exit()) return {"tool-failed", x.j.tool + " ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    if (x.kind < 3) {
      if (l.size() != x.lists.size()) return {"list-lost", N(x.lists.size()) + " n-best lists went in and " + N(l.size()) + " best hypotheses came out"};
      SV nb = Lines(ReadFile(g_env.scratch + "/out")); size_t at = 0; if (!x.nbest) nb.clear();
      for (size_t i = 0; i < l.size(); ++i) {
        auto& L = x.lists[i]; std::string where = "list " + L.id + ": "; double top = -HUGE_VAL, mine = -HUGE_VAL; for (auto& h : L.h) { top = std::max(top, h.score); if (Join(h.words) == l[i]) mine = std::max(mine, h.score); }
        if (mine == -HUGE_VAL) return {"best-differs", where + "<" + Clip(l[i]) + "> is not one of the hypotheses"}; if (!L.skip && !Close(mine, top) && mine < top - 1e-9) return {"best-differs", where + "<" + Clip(l[i]) + "> scores " + G(mine) + ", the best " + G(top)};
        if (!x.nbest) continue; std::vector<char> used(L.h.size(), 0); double last = HUGE_VAL;
        for (size_t k = 0; k < (L.skip ? L.h.size() : L.h.size()); ++k, ++at) {
          if (L.skip) { while (at < nb.size() && nb[at].compare(0, L.id.size() + 1, L.id + " ") == 0) ++at; break; }
          if (at >= nb.size()) return {"hypothesis-lost", where + "the n-best output ends early"}; SV c; { size_t b = 0, e; while ((e = nb[at].find(" ||| ", b)) != std::string::npos) { c.push_back(nb[at].substr(b, e - b)); b = e + 5; } c.push_back(nb[at].substr(b)); }
          if (c.size() != 4) return {"nbest-malformed", where + "<" + Clip(nb[at]) + ">"}; if (c[0] != L.id) return {"id-differs", where + "its hypothesis is written as <" + Clip(nb[at]) + ">"}; if (!k && c[1] != l[i]) return {"best-differs", where + "the first of the list <" + Clip(c[1]) + "> is not the best <" + Clip(l[i]) + ">"};
          double s = atof(c[2].c_str()); Feat f; for (auto& q : Split(c[3], " ")) { size_t e = q.rfind('='); f[q.substr(0, e)] = e == std::string::npos ? 0 : atof(q.c_str() + e + 1); } if (s > last + 1e-9 + 1e-5 * std::fabs(last)) return {"order-differs", where + "<" + Clip(nb[at]) + "> follows a lower score"}; last = s;
          bool hit = false; for (size_t q = 0; q < L.h.size() && !hit; ++q) { auto& h = L.h[q]; if (used[q] || Join(h.words) != c[1] || h.f.size() != f.size() || !(Close(h.score, s) || std::fabs(h.score - s) < 1e-9)) continue; bool same = true; for (auto& y : h.f) { auto it = f.find(y.first); if (it == f.end() || !Close(it->second, y.second)) same = false; } if (same) { used[q] = 1; hit = true; } }
          if (!hit) { std::string e; for (auto& h : L.h) if (Join(h.words) == c[1]) e += " " + G(h.score); return {"hypothesis-differs", where + "<" + Clip(nb[at]) + "> is not a hypothesis with its features and score; these words score" + e}; }
        }
      }
      if (at != nb.size()) return {"hypothesis-extra", "the n-best output goes on: <" + Clip(nb[at]) + ">"};
    } else if (x.kind < 6) {
      if (l.size() != x.refs.size()) return {"segment-lost", N(x.refs.size()) + " reference sentences and " + N(l.size()) + " segments"};
      SV all; Stats s; bool got = false; for (size_t i = 0; i < l.size(); ++i) { SV q = Split(l[i], " "); if ((int)q.size() > (int)(x.slack * x.refs[i].size())) return {"segment-too-long", "segment " + N(i + 1) + " has " + N(q.size()) + " words for " + N(x.refs[i].size()) + " of the reference"}; all.insert(all.end(), q.begin(), q.end()); Stats m = Measure(x.m, x.facts, {x.refs[i]}, {q}); if (got) Add(m, s); s = m; got = true; }
      if (all != x.sys) return {"words-differ", "the segments do not join to the system's words: " + FirstDiff(Join(x.sys), Join(all))};
      if (got && x.judge) { double y = Score(x.m, s); if (!std::isnan(y) && y < x.best - 1e-9 - 1e-9 * std::fabs(x.best)) return {"not-the-best", x.m.text + ": these segments score " + G(y, 9) + ", others " + G(x.best, 9)}; g_env.Reach(Additive(x.m) ? "best_segments" : "judged_segments"); }
    } else if (x.kind < 7) {
      std::set<std::string> seen; for (auto& q : l) { auto it = x.counts.find(Low(q)); if (it == x.counts.end() || !it->second.count(q)) return {"casing-differs", "<" + Clip(q) + "> was not seen inside a sentence"}; if (!seen.insert(it->first).second) return {"casing-differs", "two lines for <" + it->first + ">"}; for (auto& k : it->second) if (k.second > it->second[q]) return {"casing-differs", "<" + q + "> was seen " + N(it->second[q]) + " times, <" + k.first + "> " + N(k.second)}; }
      if (seen.size() != x.counts.size()) return {"casing-lost", N(x.counts.size()) + " words and " + N(seen.size()) + " lines"};
    } else {
      if (l.size() != x.lines.size()) return {"line-lost", N(x.lines.size()) + " lines went in and " + N(l.size()) + " came out"};
      for (size_t i = 0; i < l.size(); ++i) {
        if (x.exact) { if (l[i] != x.want[i]) return {"tokens-differ", "line " + N(i + 1) + " <" + Clip(x.lines[i]) + ">: " + FirstDiff(x.want[i], l[i])}; }
        else if (Bare(l[i]) != Bare(x.lines[i])) return {"text-differs", "line " + N(i + 1) + ": " + FirstDiff(Bare(x.lines[i]), Bare(l[i]))};
      }
      g_env.Reach(x.exact ? (x.penn ? "penn_tokens" : "identity") : "text_kept");
    }
    g_env.Reach("judged"); return v;
  }
};
Reg r25(new ToolProp);
}
