// Evaluation: the scores of mt-evaluator against measures written from their definitions.
#include "jobs.h"
#include "lmref.h"
#include "evalref.h"
#include <algorithm>
using namespace dsim;
int mt_evaluator_main(int, char**);
namespace {
struct EvalW : Workload {
  Job j; std::vector<Spec> ms; bool sent = false, usable = true, too_long = false; int boot = 0;
  std::vector<std::vector<SV>> refs; std::vector<std::vector<std::vector<SV>>> sys; SV names;
  std::vector<Facts> facts;                                  // per measure: what it needs to know of the references
  std::string Describe() { return j.what; }
};
std::string Line(Rng& r, const std::vector<SV>& f) { std::string l; for (size_t i = 0; i < f.size(); ++i) { if (i) l += " |COL| "; for (size_t k = 0; k < f[i].size(); ++k) l += (k ? (r.chance(0.03) ? "  " : " ") : "") + f[i][k]; } if (r.chance(0.03)) l += " "; return l; }
struct EvalProp : Prop {
  const char* Name() { return "eval-measure-exact"; }
  std::unique_ptr<Workload> Make(uint64_t seed) {
    Rng r(seed); auto w = std::unique_ptr<EvalW>(new EvalW); EvalW& f = *w; Job& j = f.j; j.tool = "mt-evaluator"; j.fn = mt_evaluator_main;
    SV v; for (int i = r.chance(0.3) ? r.range(1, 4) : r.range(4, 30); i > 0; --i) v.push_back("w" + N(i)); v.push_back(","); v.push_back("\xe6\x97\xa5"); if (r.chance(0.2)) v.push_back("W1");
    int factors = r.chance(0.2) ? 2 : 1, ns = r.range(1, r.chance(0.15) ? 30 : 6), nf = r.chance(0.4) ? r.range(2, 4) : 1; f.sent = r.chance(0.5);
    auto rnd = [&](int lo, int hi) { SV s; for (int i = r.range(lo, hi); i > 0; --i) s.push_back(v[r.below(v.size())]); return s; };
    int lmax = r.chance(0.1) ? 40 : 12; bool empties = r.chance(0.2), close = r.chance(0.3);
    for (int i = 0; i < ns; ++i) { std::vector<SV> l; for (int k = 0; k < factors; ++k) l.push_back(rnd(empties && r.chance(0.3) ? 0 : 1, lmax)); f.refs.push_back(l); }
    for (int s = 0; s < nf; ++s) {
      std::vector<std::vector<SV>> o; int n = ns; if (r.chance(0.06)) n = r.range(0, ns - 1); else if (r.chance(0.03)) { n = ns + 1; f.too_long = true; } double same = r.chance(0.15) ? 1 : r.chance(0.5) ? 0.2 : 0; bool copy = s && r.chance(0.15);
      for (int i = 0; i < n; ++i) {
        if (copy && i < (int)f.sys[s - 1].size()) { o.push_back(f.sys[s - 1][i]); continue; }
        std::vector<SV> l;
        for (int k = 0; k < factors; ++k) {
          SV x = i < ns && r.chance(0.9) ? f.refs[i][k] : rnd(0, lmax);
          if (!r.chance(same)) for (int e = r.range(0, close ? 2 : 6); e > 0; --e) {
            int at = x.empty() ? 0 : r.below(x.size());
            switch (r.below(5)) {
              case 0: if (!x.empty()) x.erase(x.begin() + at); break;
              case 1: x.insert(x.begin() + at, v[r.below(v.size())]); break;
              case 2: if (!x.empty()) x[at] = v[r.below(v.size())]; break;
              case 3: if (x.size() > 1) std::swap(x[at], x[r.below(x.size())]); break;
              default: if (x.size() > 2) { int a = r.below(x.size() - 1), len = r.range(1, x.size() - 1 - a); SV m(x.begin() + a, x.begin() + a + len); x.erase(x.begin() + a, x.begin() + a + len); at = r.below(x.size() + 1); x.insert(x.begin() + at, m.begin(), m.end()); }
            }
          }
          if (!empties && x.empty()) x = rnd(1, 3);
          l.push_back(x);
        }
        o.push_back(l);
      }
      f.sys.push_back(o);
    }
    if (!nf || f.sys.empty()) f.usable = false;
    for (int i = r.range(1, 4); i > 0; --i) f.ms.push_back(RandSpec(r, factors, 0, false));
    std::string ev; for (auto& m : f.ms) { ev += (ev.empty() ? "" : " ") + m.text; f.facts.push_back(Learn(m, f.refs)); }
    std::string t; for (auto& l : f.refs) t += Line(r, l) + "\n"; j.files["ref"] = t;
    j.args = {"-ref", "@/ref"}; if (r.chance(0.2) && ev == "bleu ribes") {} else { j.args.push_back("-eval"); j.args.push_back(ev); }
    if (f.sent) { j.args.push_back("-sent"); j.args.push_back("true"); }
    if (ns > 1 && r.chance(0.25)) { f.boot = r.range(1, 20); j.args.push_back("-bootstrap"); j.args.push_back(N(f.boot)); }
    for (int s = 0; s < nf; ++s) { std::string n = "sys" + std::string(1, 'A' + s), t; for (auto& l : f.sys[s]) t += Line(r, l) + "\n"; if (!f.sys[s].empty() && r.chance(0.2)) t.pop_back(); j.files[n] = t; f.names.push_back("@/" + n); j.args.push_back("@/" + n); if (f.sys[s].size() && Lines(t).size() != f.sys[s].size()) { t += "\n"; j.files[n] = t; } }
    j.what = "mt-evaluator -eval '" + ev + "' files=" + N(nf) + " sentences=" + N(ns) + (f.boot ? " bootstrap" : ""); JobPrepare(j, g_env.scratch);
    for (auto& n : f.names) n = g_env.scratch + n.substr(1);
    for (auto& m : f.ms) g_env.Reach(m.kind); if (f.boot) g_env.Reach("bootstrap"); if (nf > 1) g_env.Reach("several_files");
    return std::unique_ptr<Workload>(w.release());
  }
  bool NextPlan(Workload& ww, Rng& r, int k, Plan& p) { EvalW& f = (EvalW&)ww; if (!f.usable || k >= 3) return false; p = Plain(); if (k) { RandomSchedule(r, p); RandomBenignIo(r, p); p.step_limit = 8000000; } return true; }
  Violation Check(Workload& ww, const Plan& p, Outcome& o) {
    EvalW& f = (EvalW&)ww; JobResult got; o = JobRun(f.j, p, g_env.scratch, 0, &got);
    Violation v = Universal(o, false); if (v.bad()) return v;
    if (f.too_long) { if (o.ok_exit()) return {"eval-accepts-longer", "a system output with more lines than the references was evaluated"}; g_env.Reach("too_long"); return v; }
    if (!o.ok_exit()) return {"eval-failed", "mt-evaluator ended with " + dsim::Describe(o) + ": " + Clip(ReadFile(g_env.scratch + "/stderr"), 400)};
    SV l = Lines(got.out["standard output"]), names; size_t at = 0; std::vector<std::vector<std::vector<Stats>>> all;
    for (size_t s = 0; s < f.sys.size(); ++s) {
      std::vector<std::vector<Stats>> st(f.sys[s].size()); std::vector<Stats> total(f.ms.size()); std::string pre = f.sys.size() > 1 ? f.names[s] + " " : "";
      for (size_t i = 0; i < f.sys[s].size(); ++i) for (size_t m = 0; m < f.ms.size(); ++m) {
        Stats x = Measure(f.ms[m], f.facts[m], f.refs[i], f.sys[s][i]); std::string line = at < l.size() && f.sent ? l[at] : "";
        if (f.sent) { std::string e = pre + "Sent " + N(i) + ": "; if (line.compare(0, e.size(), e)) return {"eval-differs", "line " + N(at + 1) + " is <" + Clip(line, 100) + "> where the statistics of sentence " + N(i) + " should be"}; std::string d = Same(line.substr(e.size()), f.ms[m], x); if (!d.empty()) return {"eval-differs", f.ms[m].text + " of sentence " + N(i) + ": " + d}; ++at; }
        Add(total[m], x); st[i].push_back(x);
      }
      std::string line = at < l.size() ? l[at] : ""; ++at; SV col = Split(line, "\t"); size_t c = 0;
      if (f.sys.size() > 1) { if (c >= col.size() || col[c] != f.names[s]) return {"eval-differs", "the line of file " + f.names[s] + " is <" + Clip(line, 100) + ">"}; ++c; }
      if (f.sys[s].size() != f.refs.size()) { std::string e = "FAILED: Reference (" + N(f.refs.size()) + ") and System (" + N(f.sys[s].size()) + ") lengths don't match"; if (col.size() != c + 1 || col[c] != e) return {"eval-differs", "the line of a file with too few lines is <" + Clip(line, 200) + ">"}; g_env.Reach("too_short"); }
      else { if (col.size() != c + f.ms.size()) return {"eval-differs", "the line <" + Clip(line, 200) + "> does not hold " + N(f.ms.size()) + " measures"};
        for (size_t m = 0; m < f.ms.size(); ++m) { std::string d = Same(col[c + m], f.ms[m], total[m]); if (!d.empty()) return {"eval-differs", f.ms[m].text + " of file " + N(s) + ": " + d}; }
        all.push_back(st); names.push_back(f.names[s]); }
    }
    if (f.boot) {
      if (l.size() < at + 2 || !l[at].empty() || l[at + 1] != "Bootstrap Resampling Significance:") return {"eval-differs", "no bootstrap section"}; at += 2;
      for (size_t a = 0; a + 1 < all.size(); ++a) { if (at >= l.size() || l[at] != names[a]) return {"eval-differs", "bootstrap: no line for the first file"}; ++at;
        for (size_t b = a + 1; b < all.size(); ++b) { if (at >= l.size() || l[at] != " " + names[b]) return {"eval-differs", "bootstrap: no line for the second file"}; ++at;
          for (size_t m = 0; m < f.ms.size(); ++m, ++at) {
            std::string line = at < l.size() ? l[at] : "", e = "  " + f.ms[m].text + "\t"; if (line.compare(0, e.size(), e)) return {"eval-differs", "bootstrap: <" + Clip(line, 100) + "> where " + f.ms[m].text + " should be"};
            double x[3] = {-1, -1, -1}; if (sscanf(line.c_str() + e.size(), "%lf %lf %lf", x, x + 1, x + 2) != 3 || std::fabs(x[0] + x[1] + x[2] - 1) > 1e-4) return {"eval-bootstrap", "shares of " + f.ms[m].text + " do not sum to one: " + line};
            int ord = Dominates(f.ms[m], all[a], all[b], m); if (ord == 0 && std::fabs(x[1] - 1) > 1e-4) return {"eval-bootstrap", f.ms[m].text + ": files with equal statistics do not always tie: " + line};
            if (ord == 1 && x[2] > 0) return {"eval-bootstrap", f.ms[m].text + ": a file that is nowhere lower loses: " + line}; if (ord == -1 && x[0] > 0) return {"eval-bootstrap", f.ms[m].text + ": a file that is nowhere higher wins: " + line};
            if (ord != 9) g_env.Reach("bootstrap_ordered");
          } } } }
    if (at != l.size()) return {"eval-differs", "output goes on after line " + N(at) + ": <" + Clip(l[at], 100) + ">"};
    g_env.Reach("judged"); return v;
  }
};
Reg r20(new EvalProp);
}
