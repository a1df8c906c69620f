#pragma once
#include <string>
#include <vector>
#include <stdint.h>
struct PoolSpec { int threads, limit, ntasks; bool del; int ending; bool wait_first; std::vector<int> work; bool submit_after; std::vector<int> by; int submitters; };
struct CollSpec { int threads, n; bool buffer; std::vector<std::vector<int> > ids; std::vector<int> skip; std::vector<std::string> out, err; };
struct SymOp { int kind; int sym; };
struct SymSpec { int threads; std::vector<std::string> pool; int preload; std::vector<std::vector<SymOp> > ops; bool dict; };
int PoolBody(const PoolSpec& s);
int CollBody(const CollSpec& s);
int SymBody(const SymSpec& s);
// oracle callbacks (uninstrumented)
void oPool(int what, int i);     // 0 submit-begin 1 submit-end 2 start 3 end 4 deleted 5 stop-begin 6 stop-end 7 wait-end 8 submit-after-refused 9 submit-after-accepted
void oColl(int what, int id);    // 0 write begin, 1 write end, 2 flush
void oCollOut(int stream, const char* p, size_t n);
void oSym(int tid, int kind, int sym, long id, uint64_t t0);
uint64_t oNow();
void oSymFinal(const std::vector<std::string>& table);
void oFail(const char* what, const std::string& m);
