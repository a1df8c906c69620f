#pragma once
#include <string>
#include <vector>
#include <stdint.h>
struct QueueSpec { int size; std::vector<std::vector<int> > produce; std::vector<int> consume; std::vector<int> throw_in, throw_out; int work; };
struct KPoolSpec { int queue, workers, n; int work; };
struct ChainSpec {
  int entry, blocks, n, rounds, source, sink; size_t memory; bool release; std::vector<int> middle, sizes; std::string dir; uint64_t salt;
};
struct SortSpec { bool combine, raw_link; int entry, blocks; size_t memory, buffer, total, lazy; int mode; int out_blocks; size_t out_memory; std::vector<uint64_t> keys; std::string dir; bool no_dup_in_block; };
struct ChainsSpec { int orders, blocks, n; std::vector<int> counts; std::vector<size_t> memory; int workers; };
int QueueBody(const QueueSpec& s);
int KPoolBody(const KPoolSpec& s);
int ChainBody(const ChainSpec& s);
int SortBody(const SortSpec& s);
int ChainsBody(const ChainsSpec& s);
uint64_t ChainId(uint64_t salt, int i);
int ChainDrop(int kind, uint64_t id);          // does a middle worker of this kind drop the record
uint32_t ChainSig(uint32_t sig, int stage, uint64_t id);
// oracle callbacks (uninstrumented)
void kQueue(int what, int t, int id);          // 0 produce begins 1 ends 2 consume begins 3 ends 4 produce threw 5 consume threw
void kPool(int what, int handler, int id);     // 0 produce begins 1 ends 2 handling begins 3 ends 4 pool destroyed
void kChain(int round, int stage, uint64_t id, uint32_t sig);
void kChainEnd(int round, int stage);
void kSorted(uint64_t key, uint64_t value);
void kFailed(const char* what);
void kMulti(int order, int stage, uint64_t id, uint32_t sig);
