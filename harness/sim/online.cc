// Online tuning in the decoder against a reference perceptron that is run on the n-best lists the decoder prints.
#include "jobs.h"
#include "lmref.h"
#include "evalref.h"
#include <algorithm>
using namespace dsim;
namespace {
typedef std::map<std::string, double> Feat;
std::string Arg(const Job& j, const std::string& name) { for (size_t i = 0; i + 1 < j.args.size(); ++i) if (j.args[i] == "-" + name) return j.args[i + 1]; return ""; }
void SetArg(Job& j, const std::string& name, const std::string& v) { for (size_t i = 0; i + 1 < j.args.size(); ++i) if (j.args[i] == "-" + name) { if (v.empty()) j.args.erase(j.args.begin() + i, j.args.begin() + i + 2); else j.args[i + 1] = v; return; } if (!v.empty()) { j.args.push_back("-" + name); j.args.push_back(v); } }
SV Cut(const std::string& s, const std::string& sep) { SV o; size_t i = 0; for (;;) { size_t e = s.find(sep, i); if (e == std::string::npos) { o.push_back(s.substr(i)); return o; } o.push_back(s.substr(i, e - i)); i = e + sep.size(); } }
bool ParseFeat(const std::string& s, Feat* f) { for (auto& t : Split(s, " \n")) { size_t e = t.rfind('='); if (e == std::string::npos || !e) return false; char* q; double v = strtod(t.c_str() + e + 1, &q); if (*q || f->count(t.substr(0, e))) return false; (*f)[t.substr(0, e)] = v; } return true; }
std::string Num(double d) { char b[40]; snprintf(b, sizeof b, "%.8g", d); return b; }
struct OnlineW : Workload { Job j; Spec m; Feat init; std::map<std::string, std::pair<double, double>> range; std::vector<std::vector<SV>> refs; bool delayed = false, lm = false; double l1 = 0; int nbest = 0; std::string refuse; bool unusable = false; JobResult first; bool have = false; std::string Describe() { return j.what; } };

struct OnlineProp : Prop {
  const char* Name() { return "online-tuning-follows-decoder"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto wp = std::unique_ptr<OnlineW>(new OnlineW); OnlineW& w = *wp; Job& j = w.j; bool nolm = r.chance(0.3); j = GenDecode(r, r.chance(0.3) ? 6 : 4, !nolm);
    w.lm = j.files["conf.ini"].find("[lm_file]") != std::string::npos; j.threads_arg = "";
    SetArg(j, "nbest_tree", ""); SetArg(j, "nbest", N(r.chance(0.2) ? 1 : r.range(2, 25))); SetArg(j, "nbest_out", "@/nbest"); if (std::find(j.outputs.begin(), j.outputs.end(), "nbest") == j.outputs.end()) j.outputs.push_back("nbest"); w.nbest = atoi(Arg(j, "nbest").c_str());
    ParseFeat(Arg(j, "weight_vals"), &w.init);
    w.delayed = r.chance(0.3); SetArg(j, "tune_update", w.delayed ? "delayed" : "perceptron"); SetArg(j, "tune_weight_out", "@/tw"); j.outputs.push_back("tw");
    do w.m = RandSpec(r, 1, 0, true); while (w.m.kind == "nist" || w.m.kind == "interp" || w.m.kind == "ainterp"); SetArg(j, "tune_loss", w.m.text);
    int nr = r.chance(0.6) ? 1 : r.range(2, 3); std::string list; size_t cut = 0; bool shorter = r.chance(0.04); if (shorter) { cut = r.range(1, (int)j.units.size()); w.refuse = "Reference file is too short"; }
    SV vocab; for (int i = 0; i < 10; ++i) vocab.push_back("t" + N(i)); w.refs.resize(j.units.size()); int bad = r.below(nr), extra = r.chance(0.1) ? 2 : 0;
    for (int k = 0; k < nr; ++k) { std::string t; size_t lines = j.units.size() + extra; if (shorter && k == bad) lines = j.units.size() - cut;
      for (size_t i = 0; i < lines; ++i) { SV s; int len = r.range(1, 7); for (int q = 0; q < len; ++q) s.push_back(vocab[r.below(r.chance(0.5) ? 4 : 10)]); t += Join(s) + "\n"; if (i < w.refs.size()) w.refs[i].push_back(s); }
      std::string f = "ref" + N(k); j.files[f] = t; list += "@/" + f + "\n"; }
    j.files["conf.ini"] += "[tune_ref_files]\n" + list + "\n";
    if (!w.delayed && r.chance(0.25)) { w.l1 = r.range(1, 20) / 100.0; SetArg(j, "tune_l1_coeff", Num(w.l1)); }
    if (!w.delayed && r.chance(0.35)) { std::string t; auto add = [&](const std::string& n, double v) { int lo = (int)std::floor(std::min(v, 0.0)) - (int)r.below(2), hi = (int)std::ceil(std::max(v, 0.0)) + (int)r.below(2); bool nolo = r.chance(0.2), nohi = r.chance(0.2); w.range[n] = std::make_pair(nolo ? -1e300 : lo, nohi ? 1e300 : hi); t += (t.empty() ? "" : " ") + (nolo ? std::string() : N(lo)) + "|" + (nohi ? std::string() : N(hi)) + (n.empty() ? "" : "|" + n); };
      for (auto& f : w.init) if (r.chance(0.3)) add(f.first, f.second); if (r.chance(0.3)) add("glue", w.init.count("glue") ? w.init["glue"] : 0); if (r.chance(0.25)) { double a = 0, b = 0; for (auto& f : w.init) a = std::min(a, f.second), b = std::max(b, f.second); int lo = (int)std::floor(a) - (int)r.below(2), hi = (int)std::ceil(b) + (int)r.below(2); w.range[""] = std::make_pair((double)lo, (double)hi); t += (t.empty() ? "" : " ") + N(lo) + "|" + N(hi); }
      if (!t.empty()) SetArg(j, "tune_weight_ranges", t); }
    if (w.refuse.empty() && r.chance(0.04)) { SetArg(j, "threads", N(r.range(2, 4))); w.refuse = "cannot be combined"; }
    for (auto& f : j.files) if (f.first.find(".arpa") != std::string::npos && ParseArpa(f.second).order < 2) w.unusable = true;     // refused by design
    JobPrepare(j, g_env.scratch); if (w.unusable) return wp; w.j.what += " online tuning args: " + Join(w.j.args);
    g_env.Reach(w.delayed ? "delayed" : "perceptron"); g_env.Reach(w.m.kind); if (nr > 1) g_env.Reach("several_references"); if (w.l1) g_env.Reach("regularised"); if (!w.range.empty()) g_env.Reach("ranges"); if (!w.refuse.empty()) g_env.Reach("refusals"); if (w.lm) g_env.Reach("language_model");
    return wp;
  }
  bool NextPlan(Workload& w, Rng& r, int k, Plan& p) { if (k >= 2 || ((OnlineW&)w).unusable) return false; if (k == 0) { p = Plain(); return true; } RandomSchedule(r, p); p.step_limit = 3000000; return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    OnlineW& w = (OnlineW&)ww; JobResult got; o = JobRun(w.j, p, g_env.scratch, 0, &got); Violation v = Universal(o, false); if (v.bad()) return v;
    std::string err = ReadFile(g_env.scratch + "/stderr");
    if (!w.refuse.empty()) { if (o.ok_exit()) return {"not-refused", "tuning went on although " + (w.refuse[0] == 'c' ? std::string("several threads were asked for") : std::string("a reference file is too short"))}; if (err.find(w.refuse) == std::string::npos) return {"wrong-refusal", Clip(err, 400)}; return v; }
    if (!o.ok_exit()) return {"decode-failed", dsim::Describe(o) + ": " + Clip(err, 400)};
    struct E { SV words; double score; Feat f; }; size_t n = w.j.units.size(); std::vector<std::vector<E>> nb(n);
    for (auto& l : Lines(got.out["nbest"])) { auto c = Cut(l, " ||| "); E e; int id = c.empty() ? -1 : atoi(c[0].c_str()); if (c.size() < 4 || id < 0 || id >= (int)n || !ParseFeat(c[3], &e.f)) return {"bad-nbest-line", l}; e.words = Cut(Cut(c[1], " |COL|")[0], " "); if (e.words == SV(1)) e.words.clear(); e.score = atof(c[2].c_str()); nb[id].push_back(e); }
    Feat cur = w.init, err_of, sum; Facts none; bool decided = true; int changed = 0;
    auto range = [&](const std::string& f) { auto it = w.range.find(f); if (it == w.range.end()) it = w.range.find(""); return it == w.range.end() ? std::make_pair(-1e300, 1e300) : it->second; };
    for (size_t i = 0; i < n && decided; ++i) {
      std::string at = "sentence " + N((int)i) + " (" + Clip(w.j.units[i], 150) + "): "; auto& l = nb[i]; if (l.empty()) { g_env.Reach("nothing_to_learn_from"); continue; }
      std::vector<double> ev; size_t oracle = 0;
      for (size_t k = 0; k < l.size(); ++k) {
        double s = 0, tol = 1e-4 + 1e-5 * std::fabs(l[k].score); for (auto& f : l[k].f) { auto it = cur.find(f.first); double x = it == cur.end() ? 0 : it->second; s += x * f.second; tol += 1e-5 * std::fabs(x * f.second) + err_of[f.first] * std::fabs(f.second); }
        if (!w.l1 && std::fabs(s - l[k].score) > tol) { std::string t; for (auto& f : cur) t += " " + f.first + "=" + Num(f.second); return {"score-without-current-weights", at + "entry " + N((int)k) + " \"" + Join(l[k].words) + "\" has score " + Num(l[k].score) + ", with the weights learnt so far its features give " + Num(s) + "; the weights are" + t}; }
        if (k && l[k].score > l[k - 1].score + 1e-3 + 1e-4 * std::fabs(l[k].score)) return {"nbest-out-of-order", at + "entry " + N((int)k)};
        double best = -HUGE_VAL; for (auto& ref : w.refs[i]) { double y = Score(w.m, Measure(w.m, none, {ref}, {l[k].words})); if (!(y == y)) decided = false; best = std::max(best, y); }
        ev.push_back(best); if (best > ev[oracle]) oracle = k;
      }
      for (size_t k = 0; k < l.size() && decided; ++k) if (k != oracle && std::fabs(ev[k] - ev[oracle]) < 1e-9 && ev[k] != ev[oracle]) decided = false;
      if (!decided) break;
      if (oracle && l[oracle].f != l[0].f && l[0].score - l[oracle].score <= 2e-5 * std::max(1.0, std::fabs(l[0].score))) { decided = false; break; }
      Feat d = l[oracle].f; for (auto& f : l[0].f) d[f.first] -= f.second; if (oracle) { ++changed; g_env.Reach("updates"); }
      for (auto& f : d) { double e = 1e-5 * (std::fabs(l[oracle].f.count(f.first) ? l[oracle].f[f.first] : 0) + std::fabs(l[0].f.count(f.first) ? l[0].f[f.first] : 0)); if (!oracle) e = 0;
        if (w.delayed) { sum[f.first] += f.second; err_of[f.first + "\n"] += e; }
        else if (f.second != 0) { auto q = range(f.first); double x = (cur.count(f.first) ? cur[f.first] : 0) + f.second, y = std::min(std::max(x, q.first), q.second); if (x != y) g_env.Reach("clamped"); cur[f.first] = y; } if (!w.delayed) err_of[f.first] += e; }
      if (w.l1 && !w.delayed) for (auto& f : cur) { f.second = f.second > 0 ? std::max(f.second - w.l1, 0.0) : std::min(f.second + w.l1, 0.0); }
    }
    if (!decided) { g_env.Reach("not_decided"); return v; }
    Feat out; if (!ParseFeat(got.out["tw"], &out)) return {"bad-weight-file", Clip(got.out["tw"], 300)};
    const Feat& want = w.delayed ? sum : cur; Feat all = want; for (auto& f : out) all.insert(std::make_pair(f.first, 0.0));
    for (auto& f : all) { double x = out.count(f.first) ? out[f.first] : 0; if (std::fabs(x - f.second) > 1e-4 + 1e-5 * std::fabs(f.second) + err_of[f.first + (w.delayed ? "\n" : "")]) return {"wrong-weights", "the weight file gives " + f.first + " the value " + Num(x) + ", the updates amount to " + Num(f.second) + " (" + N(changed) + " of " + N((int)n) + " sentences changed the weights)"}; }
    g_env.Reach("weights_compared"); if (!w.have) { w.first = got; w.have = true; } else if (std::string d = Diff(w.first, got); !d.empty()) return {"not-repeatable", d};
    return v;
  }
};
Reg r1(new OnlineProp);
}
