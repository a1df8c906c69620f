// Instrumented: drives the real queues, pools, streaming chains and external sort of kenlm.
#include "kenlm.h"
#include "util/pcqueue.hh"
#include "util/thread_pool.hh"
#include "util/stream/chain.hh"
#include "util/stream/stream.hh"
#include "util/stream/io.hh"
#include "util/stream/multi_stream.hh"
#include "util/stream/sort.hh"
#include <boost/thread.hpp>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
using namespace util;
using namespace util::stream;

// ------------------------------------------------------------------ queue
namespace {
struct Thrown : std::runtime_error { Thrown() : std::runtime_error("copy") {} };
__thread int g_throw;                       // the next assignment of this thread fails
struct Item {
  int id, check;
  Item() : id(-1), check(0) {}
  Item(int i) : id(i), check(~i) {}
  Item(const Item& o) : id(o.id), check(o.check) {}
  Item& operator=(const Item& o) { if (g_throw) { g_throw = 0; throw Thrown(); } id = o.id; check = o.check; return *this; }
};
void Idle(int w) { if (w == 1) sched_yield(); else if (w == 2) usleep(100); else if (w == 3) for (int i = 0; i < 4; ++i) sched_yield(); }
struct Producer { const QueueSpec* s; PCQueue<Item>* q; int t;
  void operator()() { for (size_t i = 0; i < s->produce[t].size(); ++i) { int id = s->produce[t][i]; Idle(s->work);
    for (int k = 0; k < s->throw_in[id]; ++k) { kQueue(0, t, id); g_throw = 1; try { q->Produce(Item(id)); kFailed("an assignment that fails was not reported to the producer"); } catch (Thrown&) { kQueue(4, t, id); } g_throw = 0; }
    kQueue(0, t, id); q->Produce(Item(id)); kQueue(1, t, id); } } };
struct Consumer { const QueueSpec* s; PCQueue<Item>* q; int t;
  void operator()() { for (int i = 0; i < s->consume[t]; ++i) { Idle(s->work);
    int tt = 1000 + t; if (s->throw_out[(t * 7 + i) % s->throw_out.size()]) { kQueue(2, tt, -1); g_throw = 1; Item x; try { q->Consume(x); kFailed("an assignment that fails was not reported to the consumer"); } catch (Thrown&) { kQueue(5, tt, -1); } g_throw = 0; }
    kQueue(2, tt, -1); Item x; if (i & 1) x = q->Consume(); else q->Consume(x); if (x.check != ~x.id) kFailed("a consumed value is torn"); kQueue(3, tt, x.id); } } };
}
int QueueBody(const QueueSpec& s) {
  PCQueue<Item> q(s.size); boost::thread_group g;
  for (size_t t = 0; t < s.produce.size(); ++t) { Producer p = {&s, &q, (int)t}; g.create_thread(p); }
  for (size_t t = 0; t < s.consume.size(); ++t) { Consumer c = {&s, &q, (int)t}; g.create_thread(c); }
  g.join_all(); return 0;
}
namespace {
struct HArg { int* next; std::vector<int>* result; int work; };
struct Handler { typedef int Request; int me, work; std::vector<int>* result; int scratch;
  explicit Handler(HArg& a) : me((*a.next)++), work(a.work), result(a.result), scratch(0) {}
  void operator()(Request r) { kPool(2, me, r); scratch += r; Idle(work); (*result)[r] += 1; kPool(3, me, r); } };
}
int KPoolBody(const KPoolSpec& s) {
  std::vector<int> result(s.n + 1, 0); int next = 0;
  { HArg a = {&next, &result, s.work}; ThreadPool<Handler> pool(s.queue, s.workers, a, -1);
    for (int i = 0; i < s.n; ++i) { kPool(0, 0, i); pool.Produce(i); kPool(1, 0, i); } }
  kPool(4, 0, 0);
  for (int i = 0; i < s.n; ++i) if (result[i] != 1) kFailed("a request given to the pool was not handled exactly once before the pool was gone");
  return 0;
}
// ------------------------------------------------------------------ chain
uint64_t ChainId(uint64_t salt, int i) { return (uint64_t)i * 2654435761u + salt; }
int ChainDrop(int kind, uint64_t id) { return kind == 2 ? (id * 0x9E3779B97F4A7C15ULL >> 60) < 5 : kind == 3 ? 1 : 0; }
uint32_t ChainSig(uint32_t sig, int stage, uint64_t id) { return sig * 31 + stage * 7 + (uint32_t)id + 1; }
namespace {
struct Rc { uint64_t id; uint32_t sig; };
Rc Get(const void* p) { Rc r; memcpy(&r.id, p, 8); memcpy(&r.sig, (const char*)p + 8, 4); return r; }
void Put(void* p, const Rc& r) { memcpy(p, &r.id, 8); memcpy((char*)p + 8, &r.sig, 4); }
void Fill(void* p, int entry, uint64_t id) { Rc r = {id, 0}; Put(p, r); for (int k = 12; k < entry; ++k) ((unsigned char*)p)[k] = (unsigned char)(id + k); }
void Tail(const void* p, int entry, uint64_t id) { for (int k = 12; k < entry; ++k) if (((const unsigned char*)p)[k] != (unsigned char)(id + k)) kFailed("bytes of a record that no worker touches have changed"); }
struct StreamPut { const ChainSpec* s; int round; void Run(const ChainPosition& pos) { Stream out(pos); for (int i = 0; i < s->n; ++i, ++out) Fill(out.Get(), s->entry, ChainId(s->salt + round, i)); out.Poison(); } };
struct LinkPut { const ChainSpec* s; int round; void Run(const ChainPosition& pos) {
  size_t per = pos.GetChain().BlockSize() / s->entry; int i = 0, k = 0;
  Link l(pos);
  for (; i < s->n; ++l) { size_t m = s->sizes.empty() ? per : s->sizes[k++ % s->sizes.size()] % (per + 1); if (s->sizes.size() && k > 4 * s->n) m = per; if (m > (size_t)(s->n - i)) m = s->n - i;
    for (size_t q = 0; q < m; ++q) Fill((char*)l->Get() + q * s->entry, s->entry, ChainId(s->salt + round, i++)); l->SetValidSize(m * s->entry); }
  l.Poison(); } };
struct Middle { const ChainSpec* s; int round, stage, kind; void Run(const ChainPosition& pos) {
  if (kind == 0) { for (Stream st(pos); st; ++st) Touch(st.Get()); }
  else for (Link l(pos); l; ++l) {
    char* base = (char*)l->Get(); size_t keep = 0; if (l->ValidSize() > pos.GetChain().BlockSize() || l->ValidSize() % s->entry) kFailed("a block with an impossible number of valid bytes");
    for (size_t q = 0; q + s->entry <= l->ValidSize(); q += s->entry) { Touch(base + q); if (!ChainDrop(kind, Get(base + q).id)) { if (keep != q) memcpy(base + keep, base + q, s->entry); keep += s->entry; } }
    l->SetValidSize(keep); }
  kChainEnd(round, stage); }
  void Touch(void* p) { Rc r = Get(p); kChain(round, stage, r.id, r.sig); Tail(p, s->entry, r.id); r.sig = ChainSig(r.sig, stage, r.id); Put(p, r); } };
void Drain(const ChainSpec& s, Stream& st, int round, int stage) { for (; st; ++st) { Rc r = Get(st.Get()); kChain(round, stage, r.id, r.sig); Tail(st.Get(), s.entry, r.id); } kChainEnd(round, stage); }
void FromFile(const ChainSpec& s, int fd, int round, int stage) {
  uint64_t n = SizeOrThrow(fd); SeekOrThrow(fd, 0); std::vector<char> b(n + 1); ReadOrThrow(fd, &b[0], n);
  if (n % s.entry) kFailed("the file written by a chain does not hold whole records");
  for (uint64_t q = 0; q + s.entry <= n; q += s.entry) { Rc r = Get(&b[q]); kChain(round, stage, r.id, r.sig); Tail(&b[q], s.entry, r.id); }
  kChainEnd(round, stage);
}
}
namespace { struct DrainW { const ChainSpec* s; int round, stage; void Run(const ChainPosition& pos) { Stream st(pos); Drain(*s, st, round, stage); } }; }
int ChainBody(const ChainSpec& s) {
  try {
    Chain chain(ChainConfig(s.entry, s.blocks, s.memory));
    for (int round = 0; round < s.rounds; ++round) {
      scoped_fd in, out; int last = (int)s.middle.size();
      if (s.source >= 2) in.reset(OpenReadOrThrow((s.dir + "/in" + std::string(1, '0' + round)).c_str()));
      if (s.source == 0) { StreamPut p = {&s, round}; chain >> p; } else if (s.source == 1) { LinkPut p = {&s, round}; chain >> p; }
      else if (s.source == 2) chain >> Read(in.get()); else chain >> PRead(in.get());
      for (size_t m = 0; m < s.middle.size(); ++m) { Middle w = {&s, round, (int)m, s.middle[m]}; chain >> w; }
      if (s.sink == 5) { DrainW d = {&s, round, last}; chain >> d >> kRecycle; chain.Wait(s.release); }
      else if (s.sink == 0) { { Stream st; chain >> st >> kRecycle; Drain(s, st, round, last); } chain.Wait(s.release); }   // a stream passes the end marker on when it goes away
      else if (s.sink == 4) { FileBuffer buf(MakeTemp(s.dir + "/t")); chain >> buf.Sink(); chain.Wait(s.release);
        if (buf.Size() % s.entry) kFailed("a file buffer does not hold whole records");
        Chain second(ChainConfig(s.entry, s.blocks, s.memory)); second >> buf.Source(); Stream st; second >> st >> kRecycle; Drain(s, st, round, last); }
      else { out.reset(CreateOrThrow((s.dir + "/out").c_str())); if (s.sink == 1) chain >> WriteAndRecycle(out.get()); else if (s.sink == 2) chain >> Write(out.get()) >> kRecycle; else chain >> PWriteAndRecycle(out.get());
        chain.Wait(s.release); FromFile(s, out.get(), round, last); }
    }
  } catch (const std::exception& e) { return 1; }
  return 0;
}
// ------------------------------------------------------------------ sort
namespace {
struct KeyLess : public std::binary_function<const void*, const void*, bool> { bool operator()(const void* a, const void* b) const { return *(const uint64_t*)a < *(const uint64_t*)b; } };
struct Sum { template <class C> bool operator()(void* into, const void* opt, const C& less) const { if (less(into, opt)) return false; ((uint64_t*)into)[1] += ((const uint64_t*)opt)[1]; return true; } };
struct SortPut { const SortSpec* s; void Run(const ChainPosition& pos) { Stream st(pos); for (size_t i = 0; i < s->keys.size(); ++i, ++st) { uint64_t* p = (uint64_t*)st.Get(); p[0] = s->keys[i]; p[1] = 1 + i; for (int k = 2; k * 8 < s->entry; ++k) p[k] = p[0] + k; } st.Poison(); } };
void SortCheck(const SortSpec& s, const void* v) { const uint64_t* p = (const uint64_t*)v; for (int k = 2; k * 8 < s.entry; ++k) if (p[k] != p[0] + k) kFailed("a sorted record is torn"); kSorted(p[0], p[1]); }
template <class C> int DoSort(const SortSpec& s) {
  SortConfig sc; sc.temp_prefix = s.dir + "/s"; sc.buffer_size = s.buffer; sc.total_memory = s.total;
  Chain chain(ChainConfig(s.entry, s.blocks, s.memory)); SortPut p = {&s}; chain >> p;
  if (s.mode == 3) { BlockingSort(chain, sc, KeyLess(), C()); Stream st; chain >> st >> kRecycle; for (; st; ++st) SortCheck(s, st.Get()); return 0; }
  Sort<KeyLess, C> sorter(chain, sc, KeyLess(), C()); chain.Wait(true);
  if (sorter.Size() != (uint64_t)s.entry * s.keys.size()) kFailed("the spilled data does not have the size of the input");
  if (s.mode == 2) { scoped_fd fd(sorter.StealCompleted()); Chain out(ChainConfig(s.entry, s.out_blocks, s.out_memory)); out >> PRead(fd.get()); { Stream st; out >> st >> kRecycle; for (; st; ++st) SortCheck(s, st.Get()); } out.Wait(); return 0; }
  size_t lazy = s.lazy;
  if (s.mode == 1) { size_t need = sorter.Merge(lazy); if (need > lazy) kFailed("a merge needs more memory than it was allowed"); lazy = need; }
  Chain out(ChainConfig(s.entry, s.out_blocks, s.out_memory));
  if (s.mode == 0) sorter.Output(out); else sorter.Output(out, lazy);
  Stream st; out >> st >> kRecycle; for (; st; ++st) SortCheck(s, st.Get());
  return 0;
}
}
int SortBody(const SortSpec& s) { try { return s.combine ? DoSort<Sum>(s) : DoSort<NeverCombine>(s); } catch (const std::exception& e) { return 1; } }
// ------------------------------------------------------------------ several chains, one worker
namespace {
struct MultiPut { const ChainsSpec* s; void Run(const ChainPositions& pos) { Streams st(pos); std::vector<int> at(s->orders, 0); bool more = true; while (more) { more = false; for (int o = 0; o < s->orders; ++o) if (at[o] < s->counts[o]) { Rc r = {ChainId(o * 1000003, at[o]++), 0}; Put(st[o].Get(), r); ++st[o]; more = true; } } for (int o = 0; o < s->orders; ++o) st[o].Poison(); } };
struct OnePut { const ChainsSpec* s; int o; void Run(const ChainPosition& pos) { Stream st(pos); for (int i = 0; i < s->counts[o]; ++i, ++st) { Rc r = {ChainId(o * 1000003, i), 0}; Put(st.Get(), r); } st.Poison(); } };
struct MultiMid { const ChainsSpec* s; int stage; void Run(const ChainPositions& pos) { Streams st(pos); bool more = true; while (more) { more = false; for (int o = 0; o < s->orders; ++o) if (st[o]) { Rc r = Get(st[o].Get()); kMulti(o, stage, r.id, r.sig); r.sig = ChainSig(r.sig, stage, r.id); Put(st[o].Get(), r); ++st[o]; more = true; } } for (int o = 0; o < s->orders; ++o) kMulti(o, -1 - stage, 0, 0); } };
}
int ChainsBody(const ChainsSpec& s) {
  Chains chains(s.orders); for (int o = 0; o < s.orders; ++o) chains.push_back(ChainConfig(16, s.blocks, s.memory[o]));
  // one worker that reads several chains at its own pace needs sources that do not depend on each other
  if (!s.workers) { MultiPut p = {&s}; chains >> p; } else { for (int o = 0; o < s.orders; ++o) { OnePut p = {&s, o}; chains[o] >> p; } MultiMid m = {&s, 0}; chains >> m; }
  chains >> kRecycle; chains.Wait(true); return 0;
}
