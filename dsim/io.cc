// File, stdio and mapping calls: fault injection, deterministic names, durability model.
#include "internal.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <string>
#include <algorithm>
namespace dsim {
u64* OpCounter(); i64 ScriptFault(u64 key); bool Scripted(); const CrashPlan& GetCrash();
u64 CrashAccess();

static const int kMaxFd = 1024;
static bool g_elig[kMaxFd]; static int g_file[kMaxFd];
static u64 g_written = 0; static uptr g_mmap_cur = 0; static int g_tmpn = 0;
typedef std::vector<char, IntAlloc<char>> Buf;
struct TFile { char path[512]; Buf durable; bool used; };
static TFile g_tf[16]; static int g_ntf = 0;
struct Map { uptr lo, hi; int file; u64 off; };
static Map g_maps[64]; static int g_nmaps = 0;
static Rng g_crng(1);

struct Std { char buf[8192]; size_t pos, len; bool eof, err; int unget; };
static Std g_in, g_out;

void IoInitRun() {
  memset(g_elig, 0, sizeof g_elig); for (int i = 0; i < kMaxFd; ++i) g_file[i] = -1;
  g_elig[0] = g_elig[1] = g_plan->std_faults;
  if (g_plan->stdin_path.empty()) g_elig[0] = false;
  if (g_plan->stdout_path.empty()) g_elig[1] = false;
  g_written = 0; g_mmap_cur = kMmapBase + (1 << 20); g_tmpn = 0; g_ntf = 0; g_nmaps = 0;
  memset(&g_in, 0, sizeof g_in); memset(&g_out, 0, sizeof g_out); g_in.unget = g_out.unget = -1;
  g_crng = Rng(g_plan->seed * 77 + 5);
}
static bool Eligible(const char* path) {
  const std::string& s = g_plan->scratch;
  return !s.empty() && strncmp(path, s.c_str(), s.size()) == 0;
}
static void ReadAll(const char* path, Buf& b) {
  b.clear();
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0); if (fd < 0) return;
  char tmp[65536]; long n; while ((n = syscall(SYS_read, fd, tmp, sizeof tmp)) > 0) b.insert(b.end(), tmp, tmp + n);
  syscall(SYS_close, fd);
}
static void Sync(int f, u64 lo, u64 hi, bool whole) {
  if (f < 0) return;
  Buf cur; ReadAll(g_tf[f].path, cur);
  if (whole) { g_tf[f].durable = cur; return; }
  Buf& d = g_tf[f].durable;
  if (d.size() < cur.size()) d.resize(cur.size(), 0);
  hi = std::min<u64>((hi + 4095) & ~4095UL, cur.size()); lo &= ~4095UL;
  if (lo < hi) std::copy(cur.begin() + lo, cur.begin() + hi, d.begin() + lo);
}
static void WriteBack() {
  const CrashPlan& c = GetCrash();
  if (!g_plan->record_storage || c.writeback <= 0 || !g_ntf || !g_crng.chance(c.writeback)) return;
  int f = (int)g_crng.below(g_ntf); Buf cur; ReadAll(g_tf[f].path, cur);
  u64 pages = (cur.size() + 4095) / 4096; if (!pages) return;
  u64 p = g_crng.below(pages), n = 1 + g_crng.below(pages - p);
  if (g_crng.chance(0.5)) n = 1;
  Sync(f, p * 4096, (p + n) * 4096, false);
}
void IoCrashDump() {
  double bias = g_crng.unit();
  for (int f = 0; f < g_ntf; ++f) {
    Buf cur, img; ReadAll(g_tf[f].path, cur);
    const Buf& d = g_tf[f].durable;
    int mode = (int)g_crng.below(4);
    u64 sz = mode == 0 ? d.size() : cur.size();
    // the size of a file that grows becomes durable step by step
    if (mode == 1 && cur.size() > d.size()) sz = std::min<u64>(cur.size(), ((d.size() + g_crng.below(cur.size() - d.size() + 1)) + 4095) & ~4095UL);
    img.assign(sz, 0);
    const u64 G = g_crng.chance(0.5) ? 4096 : 512;     // pages or sectors
    for (u64 p = 0; p * G < sz; ++p) {
      bool take = g_crng.chance(bias);
      const Buf& s = take ? cur : d; u64 lo = p * G, hi = std::min<u64>(lo + G, sz);
      for (u64 i = lo; i < hi; ++i) img[i] = i < s.size() ? s[i] : 0;
    }
    char out[600]; snprintf(out, sizeof out, "%s.crash", g_tf[f].path);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (size_t o = 0; fd >= 0 && o < img.size();) { long w = syscall(SYS_write, fd, img.data() + o, img.size() - o); if (w <= 0) break; o += w; }
    syscall(SYS_close, fd);
    Event(HashBytes(img.data(), img.size()));
  }
}
FaultKind IoFault(OpClass c, bool eligible, u32* arg, bool writing) {
  if (!g_active || !self || !eligible) return F_NONE;
  u64* ops = OpCounter();
  u64 idx = ops[c]++;
  if (g_plan->profile) NoteSite(c, idx);
  if (c != OP_ALLOC && c != OP_SEM && c != OP_THREAD) {
    u64 any = ops[OP_ANY_IO]++;
    const CrashPlan& cp = GetCrash();
    if (cp.on) { WriteBack(); if (cp.io_index && any + 1 == cp.io_index) { CountFault(F_CRASH); IoCrashDump(); EndRun(OUT_CRASHED, 0); } }
  }
  u64 key = ((u64)c << 48) | idx;
  Plan& P = *g_plan;
  FaultKind k = F_NONE; u32 a = 0;
  if (Scripted()) { i64 v = ScriptFault(key); k = (FaultKind)(v & 255); a = (u32)(v >> 8); }
  else if (P.hard_class == c && (idx == P.hard_index || (P.hard_sticky && idx > P.hard_index))) k = (FaultKind)P.hard_kind;
  else if (c == OP_READ && (P.p_short_read > 0 || P.p_eintr > 0)) {
    if (P.p_eintr > 0 && FaultRng().chance(P.p_eintr)) k = F_EINTR;
    else if (P.p_short_read > 0 && FaultRng().chance(P.p_short_read)) { k = F_SHORT_READ; a = FaultRng().below(4) == 0 ? 0 : (u32)FaultRng().below(256); }
  } else if (c == OP_WRITE && (P.p_short_write > 0 || P.p_eintr > 0)) {
    if (P.p_eintr > 0 && FaultRng().chance(P.p_eintr)) k = F_EINTR;
    else if (P.p_short_write > 0 && FaultRng().chance(P.p_short_write)) { k = F_SHORT_WRITE; a = FaultRng().below(4) == 0 ? 0 : (u32)FaultRng().below(256); }
  } else if (c == OP_SEM && P.p_eintr > 0 && FaultRng().chance(P.p_eintr)) k = F_EINTR;
  if (k != F_NONE) { Log('F', key, (i64)k | ((i64)a << 8)); CountFault(k); if (k == P.hard_kind && P.hard_class == c) NoteFaultStack(); if (arg) *arg = a; }
  return k;
}
static size_t Shorten(size_t n, u32 arg) { return n <= 1 ? n : 1 + (n - 1) * arg / 256; }
static bool El(int fd) { return fd >= 0 && fd < kMaxFd && g_elig[fd]; }
static void Track(int fd, const char* path, int flags) {
  if (fd < 0 || fd >= kMaxFd) return;
  g_elig[fd] = Eligible(path); g_file[fd] = -1;
  if (g_plan->record_storage && g_elig[fd] && (flags & O_ACCMODE) != O_RDONLY) {
    for (int i = 0; i < g_ntf; ++i) if (!strcmp(g_tf[i].path, path)) { g_file[fd] = i; return; }
    if (g_ntf < 16 && strlen(path) < 500) { TFile& t = g_tf[g_ntf]; strcpy(t.path, path); t.durable.clear(); g_file[fd] = g_ntf++; }
  }
}
static int DoOpen(const char* path, int flags, mode_t mode) {
  if (g_active && self) {
    SchedPoint(30);
    if (IoFault(OP_OPEN, Eligible(path)) != F_NONE) { errno = (flags & O_CREAT) ? EACCES : EMFILE; return -1; }
  }
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  if (g_active && self && fd >= 0) Track(fd, path, flags);
  return fd;
}
static int RealFd(FILE* f) { return fileno(f); }
static bool IsStd(FILE* f) { return g_active && self && (f == stdin || f == stdout); }
}  // namespace dsim
using namespace dsim;
#define ACTIVE (g_active && self)
extern "C" {
int open(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return DoOpen(p, fl, m); }
int open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); } return DoOpen(p, fl, m); }
int creat(const char* p, mode_t m) { return DoOpen(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (!ACTIVE) return (int)syscall(SYS_close, fd);
  SchedPoint(31);
  bool e = El(fd);
  FaultKind k = IoFault(OP_CLOSE, e);
  if (fd >= 0 && fd < kMaxFd) { g_elig[fd] = false; g_file[fd] = -1; }
  int r = (int)syscall(SYS_close, fd);
  if (k != F_NONE) { errno = EIO; return -1; }
  return r;
}
static ssize_t ReadX(int fd, void* b, size_t n, bool at, off_t off) {
  size_t m = n;
  if (ACTIVE) {
    SchedPoint(32);
    u32 a = 0;
    switch (IoFault(OP_READ, El(fd), &a)) {
      case F_NONE: break;
      case F_SHORT_READ: m = Shorten(n, a); break;
      case F_EINTR: errno = EINTR; return -1;
      default: errno = EIO; return -1;
    }
  }
  ssize_t r = at ? syscall(SYS_pread64, fd, b, m, off) : syscall(SYS_read, fd, b, m);
  if (ACTIVE && r > 0) AccessRange((uptr)b, r, true, (uptr)__builtin_return_address(0));
  return r;
}
ssize_t read(int fd, void* b, size_t n) { return ReadX(fd, b, n, false, 0); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return ReadX(fd, b, n, true, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return ReadX(fd, b, n, true, o); }
static ssize_t WriteX(int fd, const void* b, size_t n, bool at, off_t off) {
  size_t m = n;
  if (ACTIVE) {
    SchedPoint(33);
    u32 a = 0;
    if (fd != 2) AccessRange((uptr)b, n, false, (uptr)__builtin_return_address(0));
    switch (IoFault(OP_WRITE, El(fd), &a, true)) {
      case F_NONE: break;
      case F_SHORT_WRITE: m = Shorten(n, a); break;
      case F_EINTR: errno = EINTR; return -1;
      case F_WRITE_ENOSPC: errno = ENOSPC; return -1;
      default: errno = EIO; return -1;
    }
    if (El(fd) && g_plan->disk_limit) {
      if (g_written >= g_plan->disk_limit) { CountFault(F_WRITE_ENOSPC); Event(0xd15c); errno = ENOSPC; return -1; }
      m = std::min<size_t>(m, g_plan->disk_limit - g_written);
    }
  }
  ssize_t r = at ? syscall(SYS_pwrite64, fd, b, m, off) : syscall(SYS_write, fd, b, m);
  if (ACTIVE && r > 0 && El(fd)) g_written += r;
  return r;
}
ssize_t write(int fd, const void* b, size_t n) { return WriteX(fd, b, n, false, 0); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return WriteX(fd, b, n, true, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return WriteX(fd, b, n, true, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!ACTIVE) return syscall(SYS_writev, fd, v, c);
  // as one operation, which may be cut anywhere
  std::string all; { Quiet q; for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len); }
  return WriteX(fd, all.data(), all.size(), false, 0);
}
ssize_t readv(int fd, const struct iovec* v, int c) { for (int i = 0; i < c; ++i) if (v[i].iov_len) return ReadX(fd, v[i].iov_base, v[i].iov_len, false, 0); return 0; }
static off_t SeekX(int fd, off_t o, int w) {
  if (ACTIVE && El(fd) && IoFault(OP_SEEK, true) != F_NONE) { errno = EIO; return -1; }
  return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return SeekX(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return SeekX(fd, o, w); }
static int TruncX(int fd, off_t n) {
  if (ACTIVE) { SchedPoint(34); if (IoFault(OP_TRUNC, El(fd)) != F_NONE) { errno = g_plan->hard_kind == F_WRITE_ENOSPC ? ENOSPC : EIO; return -1; } }
  return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return TruncX(fd, n); }
int ftruncate64(int fd, off64_t n) { return TruncX(fd, n); }
static int SyncX(int fd) {
  if (!ACTIVE) return 0;
  SchedPoint(35);
  if (IoFault(OP_SYNC, El(fd)) != F_NONE) { errno = EIO; return -1; }
  if (fd >= 0 && fd < kMaxFd) Sync(g_file[fd], 0, 0, true);
  return 0;
}
int fsync(int fd) { return SyncX(fd); }
int fdatasync(int fd) { return SyncX(fd); }
int msync(void* a, size_t n, int fl) {
  if (!ACTIVE) return (int)syscall(SYS_msync, a, n, fl);
  SchedPoint(36);
  bool mine = false; for (int i = 0; i < g_nmaps; ++i) if ((uptr)a >= g_maps[i].lo && (uptr)a < g_maps[i].hi) mine = true;
  if (IoFault(OP_SYNC, mine) != F_NONE) { errno = EIO; return -1; }
  for (int i = 0; i < g_nmaps; ++i) { Map& m = g_maps[i];
    uptr lo = std::max((uptr)a, m.lo), hi = std::min((uptr)a + n, m.hi);
    if (lo < hi && m.file >= 0) Sync(m.file, m.off + (lo - m.lo), m.off + (hi - m.lo), false); }
  return 0;
}
void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t off) {
  if (!ACTIVE || (fl & MAP_FIXED)) return (void*)syscall(SYS_mmap, a, n, prot, fl, fd, off);
  SchedPoint(37);
  if (IoFault(OP_MMAP, (fl & MAP_ANONYMOUS) || El(fd)) != F_NONE) { errno = ENOMEM; return MAP_FAILED; }
  size_t r = (n + 4095) & ~4095UL;
  if (!n) { errno = EINVAL; return MAP_FAILED; }
  if (g_mmap_cur + r + 4096 > kMmapBase + kMmapSize) { errno = ENOMEM; return MAP_FAILED; }
  uptr at = g_mmap_cur;
  void* p = (void*)syscall(SYS_mmap, at, n, prot, (fl & ~0x100000) | MAP_FIXED | ((fl & MAP_ANONYMOUS) ? MAP_NORESERVE : 0), fd, off);
  if (p == MAP_FAILED) return p;
  g_mmap_cur += r + 4096;
  if (!(fl & MAP_ANONYMOUS) && (fl & MAP_SHARED) && (prot & PROT_WRITE) && El(fd) && g_nmaps < 64) { g_maps[g_nmaps++] = {at, at + r, g_file[fd], (u64)off}; }
  return p;
}
void* mmap64(void* a, size_t n, int prot, int fl, int fd, off64_t off) { return mmap(a, n, prot, fl, fd, off); }
int munmap(void* a, size_t n) {
  if (ACTIVE) for (int i = 0; i < g_nmaps; ++i) if (g_maps[i].lo == (uptr)a) { g_maps[i] = g_maps[--g_nmaps]; break; }
  return (int)syscall(SYS_munmap, a, n);
}
int mkstemp(char* t) {
  if (!ACTIVE) { static int (*real)(char*); return Real("mkstemp", real)(t); }
  size_t n = strlen(t); if (n < 6) { errno = EINVAL; return -1; }
  for (;;) { char b[16]; snprintf(b, sizeof b, "d%05d", ++g_tmpn % 100000); memcpy(t + n - 6, b, 6);
    int fd = DoOpen(t, O_RDWR | O_CREAT | O_EXCL, 0600); if (fd >= 0 || errno != EEXIST) return fd; }
}
int mkstemp64(char* t) { return mkstemp(t); }
static FILE* FopenX(const char* p, const char* mode, FILE* (*real)(const char*, const char*)) {
  if (!ACTIVE) return real(p, mode);
  SchedPoint(38);
  if (IoFault(OP_OPEN, Eligible(p)) != F_NONE) { errno = EACCES; return nullptr; }
  FILE* f = real(p, mode);
  if (f) Track(RealFd(f), p, mode[0] == 'r' && !strchr(mode, '+') ? O_RDONLY : O_RDWR);
  return f;
}
FILE* fopen(const char* p, const char* m) { static FILE* (*real)(const char*, const char*); return FopenX(p, m, Real("fopen", real)); }
FILE* fopen64(const char* p, const char* m) { static FILE* (*real)(const char*, const char*); return FopenX(p, m, Real("fopen64", real)); }
int fclose(FILE* f) {
  static int (*real)(FILE*);
  FaultKind k = F_NONE;
  if (ACTIVE) { int fd = RealFd(f); k = IoFault(OP_CLOSE, El(fd)); if (fd >= 0 && fd < kMaxFd) { g_elig[fd] = false; g_file[fd] = -1; } }
  int r = Real("fclose", real)(f);
  if (k != F_NONE) { errno = EIO; return EOF; }
  return r;
}
// ---- stdin / stdout as stdio sees them (each call holds the stream's lock, as in the C library)
struct StdioLock {
  bool* b;
  StdioLock(FILE* f) { static bool busy[2]; b = &busy[f == stdout]; while (*b) Block(B_MUTEX, b, -1); *b = true; }
  ~StdioLock() { *b = false; WakeAll(B_MUTEX, b); }
};
static int FillIn() {
  if (g_in.eof || g_in.err) return EOF;
  ssize_t r;
  r = ReadX(0, g_in.buf, 4096, false, 0);
  if (r == 0) { g_in.eof = true; return EOF; }
  if (r < 0) { if (errno == EINTR) return FillIn(); g_in.err = true; return EOF; }
  g_in.pos = 0; g_in.len = r; return 0;
}
static int GetcIn() { if (g_in.unget >= 0) { int c = g_in.unget; g_in.unget = -1; return c; } if (g_in.pos >= g_in.len && FillIn()) return EOF; return (unsigned char)g_in.buf[g_in.pos++]; }
static bool FlushOut() {
  size_t o = 0;
  while (o < g_out.len) {
    ssize_t w = WriteX(1, g_out.buf + o, g_out.len - o, false, 0);
    if (w < 0 && errno == EINTR) continue;
    if (w <= 0) { memmove(g_out.buf, g_out.buf + o, g_out.len - o); g_out.len -= o; g_out.err = true; return false; }
    o += w;
  }
  g_out.len = 0; return true;
}
static size_t WriteOut(const char* p, size_t n) {
  size_t done = 0;
  while (done < n) {
    if (g_out.len >= 4096 && !FlushOut()) return done;
    size_t k = std::min(n - done, (size_t)4096 - g_out.len);
    memcpy(g_out.buf + g_out.len, p + done, k); g_out.len += k; done += k;
  }
  return done;
}
int ferror(FILE* f) { static int (*real)(FILE*); if (IsStd(f)) return f == stdin ? g_in.err : g_out.err; return Real("ferror", real)(f); }
int feof(FILE* f) { static int (*real)(FILE*); if (IsStd(f)) return f == stdin ? g_in.eof : 0; return Real("feof", real)(f); }
void clearerr(FILE* f) { static void (*real)(FILE*); if (IsStd(f)) { Std& s = f == stdin ? g_in : g_out; s.err = s.eof = false; return; } Real("clearerr", real)(f); }
int getc(FILE* f) { static int (*real)(FILE*); if (IsStd(f)) { StdioLock l(f); return GetcIn(); } return Real("getc", real)(f); }
int fgetc(FILE* f) { static int (*real)(FILE*); if (IsStd(f)) { StdioLock l(f); return GetcIn(); } return Real("fgetc", real)(f); }
int ungetc(int c, FILE* f) { static int (*real)(int, FILE*); if (IsStd(f)) { if (c == EOF) return EOF; g_in.unget = c; return c; } return Real("ungetc", real)(c, f); }
size_t fread(void* b, size_t s, size_t n, FILE* f) {
  static size_t (*real)(void*, size_t, size_t, FILE*);
  if (IsStd(f)) { StdioLock l(f); size_t t = s * n, i = 0; for (; i < t; ++i) { int c = GetcIn(); if (c == EOF) break; ((char*)b)[i] = (char)c; } return s ? i / s : 0; }
  return Real("fread", real)(b, s, n, f);
}
int putc(int c, FILE* f) { static int (*real)(int, FILE*); if (IsStd(f)) { StdioLock l(f); char ch = (char)c; return WriteOut(&ch, 1) == 1 ? (unsigned char)c : EOF; } return Real("putc", real)(c, f); }
int fputc(int c, FILE* f) { static int (*real)(int, FILE*); if (IsStd(f)) { StdioLock l(f); char ch = (char)c; return WriteOut(&ch, 1) == 1 ? (unsigned char)c : EOF; } return Real("fputc", real)(c, f); }
size_t fwrite(const void* b, size_t s, size_t n, FILE* f) {
  static size_t (*real)(const void*, size_t, size_t, FILE*);
  if (IsStd(f)) { StdioLock l(f); size_t w = WriteOut((const char*)b, s * n); return s ? w / s : 0; }
  if (ACTIVE && f == stderr && g_plan->stderr_path == "/dev/null") return n;
  return Real("fwrite", real)(b, s, n, f);
}
int fputs(const char* s, FILE* f) {
  static int (*real)(const char*, FILE*);
  if (IsStd(f)) { StdioLock l(f); return WriteOut(s, strlen(s)) == strlen(s) ? 1 : EOF; }
  return Real("fputs", real)(s, f);
}
int puts(const char* s) { static int (*real)(const char*); if (ACTIVE) { StdioLock l(stdout); WriteOut(s, strlen(s)); return WriteOut("\n", 1) == 1 ? 1 : EOF; } return Real("puts", real)(s); }
int fflush(FILE* f) {
  static int (*real)(FILE*);
  if (IsStd(f)) { if (f == stdin) return 0; StdioLock l(f); return FlushOut() ? 0 : EOF; }
  return Real("fflush", real)(f);
}
}
namespace dsim { void IoFlushStdout() { FlushOut(); } }
