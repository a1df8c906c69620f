// Loads a language model the way the decoder does and prints its vocabulary and scores.
#include "lm/enumerate_vocab.hh"
#include "lm/model.hh"
#include "util/exception.hh"
#include <stdio.h>
#include <memory>
#include <string>
#include <vector>
namespace {
struct Save : lm::EnumerateVocab {
  std::vector<std::pair<unsigned, std::string>> words;
  void Add(lm::WordIndex i, const StringPiece& s) { words.push_back(std::make_pair((unsigned)i, std::string(s.data(), s.size()))); }
};
}
// 0: loaded and printed; 1: refused
int LmProbe(const std::string& path, int method, const std::vector<std::vector<std::string>>& sents, const std::string& out) {
  Save save; std::unique_ptr<lm::base::Model> m;
  lm::ngram::Config c; c.messages = NULL; c.enumerate_vocab = &save; c.show_progress = false;
  static const util::LoadMethod how[] = {util::LAZY, util::POPULATE_OR_READ, util::READ, util::PARALLEL_READ}; c.load_method = how[method & 3];
  try { m.reset(lm::ngram::LoadVirtual(path.c_str(), c)); }
  catch (const std::exception& e) { fprintf(stderr, "%s\n", e.what()); return 1; }
  FILE* f = fopen(out.c_str(), "w"); if (!f) return 2;
  for (auto& w : save.words) fprintf(f, "%u %s %u\n", w.first, w.second.c_str(), (unsigned)m->BaseVocabulary().Index(w.second));
  std::vector<char> a(m->StateSize()), b(m->StateSize());
  for (auto& s : sents) {
    m->BeginSentenceWrite(&a[0]);
    for (auto& w : s) { lm::FullScoreReturn r = m->BaseFullScore(&a[0], m->BaseVocabulary().Index(w), &b[0]); fprintf(f, "%s %.9g %d ", w.c_str(), r.prob, (int)r.ngram_length); a.swap(b); }
    fprintf(f, "\n");
  }
  fclose(f); return 0;
}
