// Native replay driver: driver CASEFILE OUTFILE
// CASEFILE: entry name; number of ints, ints; number of buffers; per buffer:
// size, offset inside its page, hex bytes.  Buffers are placed so that the
// byte after the end of each is an unmapped page (and, in a second run with
// VP_GUARD=low, the byte before the start).
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
static std::map<std::string, vp_fn>& table() {
  static std::map<std::string, vp_fn> t;
  return t;
}
void vp_register(const char* name, vp_fn f) { table()[name] = f; }
struct Log { int t; long a, b; };
static std::vector<Log> logs;
extern "C" void vp_log(int tag, long a, long b) {
  Log l = {tag, a, b};
  logs.push_back(l);
}
// Fresh heap memory is filled with the counterexample's choice of garbage, so
// that results depending on uninitialised memory are reproducible.
static int garbage_fill = -1;
extern "C" void* __libc_malloc(size_t);
static void fill(void* p, size_t n) {
  if (p && garbage_fill >= 0) memset(p, garbage_fill, n);
}

#ifdef VP_NOWRAP
#define real_malloc malloc
#define real_free free
#define real_posix_memalign posix_memalign
static void init_guard() {}
#else
extern "C" void* __real_malloc(size_t n);
extern "C" void __real_free(void* p);
extern "C" int __real_posix_memalign(void** p, size_t a, size_t n);
// VP_HEAPGUARD: every block handed to the code under test ends (as closely as
// its alignment allows) at an unmapped page, and is unmapped when freed.
static int heapguard = -1;
struct GB { char* p; char* base; size_t len; };
static GB gblocks[4096];
static int ngb = 0;
static bool guarded() {
  if (heapguard < 0) heapguard = getenv("VP_HEAPGUARD") ? 1 : 0;
  return heapguard == 1 && ngb < 4096;
}
static void* galloc(size_t a, size_t n) {
  const size_t pg = 4096;
  if (a < 1) a = 1;
  size_t len = (n + a + pg - 1) / pg * pg;
  if (a > pg) return 0;
  char* base = (char*)mmap(0, len + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(base, pg, PROT_NONE);
  mprotect(base + pg + len, pg, PROT_NONE);
  char* p = base + pg + (len - n) / a * a;
  GB g = {p, base, len + 2 * pg};
  gblocks[ngb++] = g;
  return p;
}
static bool gfree(void* p) {
  for (int i = 0; i < ngb; i++)
    if (gblocks[i].p == p) {
      mprotect(gblocks[i].base, gblocks[i].len, PROT_NONE);
      gblocks[i].p = 0;
      return true;
    }
  return false;
}
static void* xalloc(size_t a, size_t n) {
  void* p = 0;
  if (guarded()) p = galloc(a, n);
  if (!p) {
    if (a <= 16) p = __real_malloc(n ? n : 1);
    else if (__real_posix_memalign(&p, a, n)) p = 0;
  }
  fill(p, n);
  return p;
}
static void xfree(void* p) {
  if (!p) return;
  if (ngb && gfree(p)) return;
  __real_free(p);
}
extern "C" int __wrap_posix_memalign(void** p, size_t a, size_t n) {
  *p = xalloc(a, n);
  return *p ? 0 : 12;
}
extern "C" void* __wrap_malloc(size_t n) { return xalloc(16, n); }
extern "C" void* __wrap_aligned_alloc(size_t a, size_t n) { return xalloc(a, n); }
extern "C" void* __wrap_memalign(size_t a, size_t n) { return xalloc(a, n); }
extern "C" void __wrap_free(void* p) { xfree(p); }
void* operator new(size_t n) { return xalloc(16, n); }
void* operator new[](size_t n) { return xalloc(16, n); }
void operator delete(void* p) noexcept { xfree(p); }
void operator delete[](void* p) noexcept { xfree(p); }
void operator delete(void* p, size_t) noexcept { xfree(p); }
void operator delete[](void* p, size_t) noexcept { xfree(p); }
#endif
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main(int argc, char** argv) {
  FILE* f = fopen(argv[1], "r");
  char name[256];
  int ni, nb;
  if (fscanf(f, "%255s %d", name, &ni) != 2) return 97;
  std::vector<std::int64_t> V(ni + 1);
  for (int i = 0; i < ni; i++) {
    long long x;
    if (fscanf(f, "%lld", &x) != 1) return 97;
    V[i] = x;
  }
  if (fscanf(f, "%d", &nb) != 1) return 97;
  std::vector<vp_byte*> B(nb + 1);
  std::vector<long> S(nb);
  const bool low = getenv("VP_GUARD") && !strcmp(getenv("VP_GUARD"), "low");
  if (getenv("VP_FILL")) garbage_fill = atoi(getenv("VP_FILL"));
  const long pg = sysconf(_SC_PAGESIZE);
  for (int b = 0; b < nb; b++) {
    long sz, al;
    if (fscanf(f, "%ld %ld", &sz, &al) != 2) return 97;
    S[b] = sz;
    const long n = (sz + al + pg - 1) / pg * pg;
    char* base = (char*)mmap(0, n + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(base, pg, PROT_NONE);
    mprotect(base + pg + n, pg, PROT_NONE);
    // al is the required alignment: the buffer ends (or starts) at the guard
    // page as closely as the alignment allows.
    long start = low ? pg : pg + (n - sz) / al * al;
    B[b] = (vp_byte*)base + start;
    int c = fgetc(f);
    while (c == ' ' || c == '\n') c = fgetc(f);
    if (c != ':') return 97;
    for (long i = 0; i < sz; i++) {
      int h = fgetc(f), l = fgetc(f);
      B[b][i] = hexv(h) * 16 + hexv(l);
    }
  }
  fclose(f);
  if (!table().count(name)) return 98;
  table()[name](B.data(), V.data());
  FILE* o = fopen(argv[2], "w");
  for (int b = 0; b < nb; b++) {
    fputc(':', o);
    for (long i = 0; i < S[b]; i++) fprintf(o, "%02x", B[b][i]);
    fputc('\n', o);
  }
  for (size_t i = 0; i < logs.size(); i++) fprintf(o, "L %d %ld %ld\n", logs[i].t, logs[i].a, logs[i].b);
  fclose(o);
  return 0;
}
