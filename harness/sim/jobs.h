// Command-line programs of the repository as simulated jobs with generated inputs.
#pragma once
#include "prop.h"
typedef int (*MainFn)(int, char**);
struct Job {
  std::string tool;                            // program name
  MainFn fn = nullptr;
  std::vector<std::string> args;               // without argv[0]; "@/x" stands for a file below the scratch directory
  std::map<std::string, std::string> files;    // inputs, relative names
  std::string stdin_file;                      // relative name or "" (empty input)
  std::vector<std::string> outputs;            // output files, relative names (standard output is always compared)
  std::string threads_arg;                     // option that takes the number of threads ("" if single threaded)
  std::map<std::string, std::string> binarise; // language models (members of files) to turn into binary files: name -> build_binary arguments
  std::string what;                            // description
  std::vector<std::string> units;              // decoder: one input text per sentence
};
struct JobResult { std::map<std::string, std::string> out; bool operator==(const JobResult& o) const { return out == o.out; } };
// file system set-up
void JobPrepare(const Job& j, const std::string& dir);                     // writes the inputs
void JobClean(const Job& j, const std::string& dir);                       // removes outputs
// runs the job; threads 0 = leave as is
dsim::Outcome JobRun(const Job& j, dsim::Plan p, const std::string& dir, int threads, JobResult* res);
// generators
Job GenDecode(dsim::Rng& r, int size, bool lm_allowed = true);
Job GenTune(dsim::Rng& r, int size, const std::string* forest = nullptr, int forest_sents = 0);
std::string GenNbest(dsim::Rng& r, const std::vector<std::vector<std::string>>& refs, const std::vector<std::string>& vocab, int maxn, int feats, bool dups);
Job GenTool(dsim::Rng& r, int size);     // any single-threaded program of the tool chain
Job GenLm(dsim::Rng& r, int size);       // kenlm programs
std::string GenArpa(dsim::Rng& r, const std::vector<std::string>& words, int order, bool unk);
std::string GenCorpus(dsim::Rng& r, int lines, int vocab, int maxlen, bool empties);
std::string Gzip(const std::string& s);
std::string Diff(const JobResult& want, const JobResult& got);
