// Instrumented: drives the real ThreadPool, OutputCollector and symbol table.
#include "core.h"
#include <travatar/thread-pool.h>
#include <travatar/task.h>
#include <travatar/output-collector.h>
#include <travatar/symbol-set.h>
#include <travatar/dict.h>
#include <boost/thread.hpp>
#include <sstream>
#include <stdexcept>
#include <unistd.h>
using namespace travatar;

namespace {
struct SimTask : public Task {
  int id, work; std::vector<int>* result;
  SimTask(int i, int w, std::vector<int>* r) : id(i), work(w), result(r) {}
  ~SimTask() { oPool(4, id); }
  void Run() {
    oPool(2, id);
    if (work == 1) sched_yield();
    else if (work == 2) usleep(1000);
    else if (work == 3) { for (int k = 0; k < 5; ++k) sched_yield(); }
    else if (work == 4) sleep(3);
    (*result)[id] += 1;      // plain memory: must be ordered before the owner reads it
    oPool(3, id);
  }
};
}
namespace {
struct Submitter { const PoolSpec* s; ThreadPool* pool; std::vector<Task*>* tasks; int me;
  void operator()() { for (int i = 0; i < s->ntasks; ++i) if (s->by[i] == me) { oPool(0, i); pool->Submit((*tasks)[i]); oPool(1, i); } } };
}
int PoolBody(const PoolSpec& s) {
  std::vector<int> result(s.ntasks + 1, 0);
  std::vector<Task*> tasks;
  if (s.submitters > 1) {
    for (int i = 0; i < s.ntasks; ++i) tasks.push_back(new SimTask(i, s.work[i], &result));
    ThreadPool pool(s.threads, s.limit);
    pool.SetDeleteTasks(s.del);
    boost::thread_group g;
    for (int t = 0; t < s.submitters; ++t) { Submitter b = {&s, &pool, &tasks, t}; g.create_thread(b); }
    g.join_all();
    if (s.wait_first) { pool.Wait(); oPool(7, 0); }
    oPool(5, 0); pool.Stop(s.ending == 0); oPool(6, 0);
  } else {
    ThreadPool pool(s.threads, s.limit);
    pool.SetDeleteTasks(s.del);
    for (int i = 0; i < s.ntasks; ++i) {
      Task* t = new SimTask(i, s.work[i], &result);
      tasks.push_back(t);
      oPool(0, i); pool.Submit(t); oPool(1, i);
      if (s.wait_first && i == s.ntasks / 2) { pool.Wait(); oPool(7, i); }
    }
    oPool(5, 0);
    pool.Stop(s.ending == 0);
    oPool(6, 0);
    if (s.submit_after) {
      SimTask extra(s.ntasks, 0, &result); (void)extra;
      bool refused = false;
      try { pool.Submit(&extra); } catch (std::exception& e) { refused = true; }
      oPool(refused ? 8 : 9, s.ntasks);
    }
  }
  for (int i = 0; i < s.ntasks; ++i) {
    if (s.ending == 0 && result[i] != 1) oFail("lost-task", "a submitted task left no single result");
  }
  return 0;
}

namespace {
struct CapBuf : public std::streambuf {
  int stream; int total; CapBuf(int s) : stream(s), total(0) {}
  int overflow(int c) { if (c != EOF) { char ch = (char)c; ++total; oCollOut(stream, &ch, 1); } return c; }
  std::streamsize xsputn(const char* p, std::streamsize n) { total += (int)n; if (n) oCollOut(stream, p, n); return n; }
  int sync() { oColl(2, stream); return 0; }
};
struct CollThread { const CollSpec* s; OutputCollector* c; int t;
  void operator()() { for (size_t k = 0; k < s->ids[t].size(); ++k) { int id = s->ids[t][k]; oColl(0, id); if (s->skip[id]) c->Skip(id); else c->Write(id, s->out[id], s->err[id]); oColl(1, id); } } };
}
int CollBody(const CollSpec& s) {
  CapBuf ob(0), eb(1); std::ostream out(&ob), err(&eb);
  OutputCollector coll(&out, &err, s.buffer);
  boost::thread_group g;
  for (int t = 0; t < s.threads; ++t) { CollThread ct = {&s, &coll, t}; g.create_thread(ct); }
  g.join_all();
  coll.Flush();
  return 0;
}

namespace {
struct SymThread { const SymSpec* s; SymbolSet<int>* set; int t;
  void operator()() {
    std::vector<std::pair<int, long> > mine;
    for (size_t k = 0; k < s->ops[t].size(); ++k) {
      const SymOp& op = s->ops[t][k];
      const std::string& str = s->pool[op.sym];
      uint64_t t0 = oNow();
      if (op.kind == 0) { long id = s->dict ? (long)Dict::WID(str) : (long)set->GetId(str, true); mine.push_back(std::make_pair(op.sym, id)); oSym(t, 0, op.sym, id, t0); }
      else if (op.kind == 1 && !s->dict) { long id = set->GetId(str, false); oSym(t, 1, op.sym, id, t0); }
      else if (!mine.empty()) {
        const std::pair<int, long>& m = mine[op.sym % mine.size()];
        if (m.second < 0) continue;
        const std::string& got = s->dict ? Dict::WSym(m.second) : set->GetSymbol((int)m.second);
        if (got != s->pool[m.first]) oFail("wrong-symbol", "the string stored under an identifier is not the string that was interned");
      }
    }
  }
};
}
int SymBody(const SymSpec& s) {
  SymbolSet<int> set(true);
  for (int i = 0; i < s.preload; ++i) { uint64_t t0 = oNow(); long id = s.dict ? (long)Dict::WID(s.pool[i]) : (long)set.GetId(s.pool[i], true); oSym(-1, 0, i, id, t0); }
  boost::thread_group g;
  for (int t = 0; t < s.threads; ++t) { SymThread st = {&s, &set, t}; g.create_thread(st); }
  g.join_all();
  std::vector<std::string> table;
  if (!s.dict) { for (size_t i = 0; i < set.size(); ++i) table.push_back(set.GetSymbol((int)i)); oSymFinal(table); }
  else { // the global table holds other symbols too: check by identifier
    for (size_t i = 0; i < s.pool.size(); ++i) { uint64_t t0 = oNow(); long id = Dict::WID(s.pool[i]); oSym(-1, 0, (int)i, id, t0); if (Dict::WSym(id) != s.pool[i]) oFail("wrong-symbol", "after all threads ended an identifier maps to another string"); }
    oSymFinal(table);
  }
  return 0;
}
