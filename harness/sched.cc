// Runs the real thread code of the harness under a given schedule of its synchronisation operations.
// Compiled without instrumentation; the harness is compiled with -fsanitize=thread and linked against this runtime
// instead of the sanitizer's.  Finds data races (vector clocks), use after free, deadlocks and endless waits.
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
typedef unsigned long u64;
extern "C" void VP_MAIN(unsigned char* B, const int64_t* V);
extern "C" {
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
void __real_free(void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*);
}
namespace {
const int MAXT = 16;
pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
pthread_cond_t cv[MAXT];
struct Entry { int th; char op; };
std::vector<Entry> sched;
size_t pos = 0;
bool freerun = false;
unsigned rnd = 1;
int nth = 1, current = 0;
bool alive[MAXT], ended[MAXT], begun[MAXT];
const void* waitmutex[MAXT];   // blocked on this mutex
const void* waitcond[MAXT];    // waiting on this condition variable
int waitjoin[MAXT];
long spins = 0;
std::map<const void*, int> owner;  // mutex -> thread
typedef std::vector<int> VC;
VC clk[MAXT];
std::map<const void*, VC> mclk;
struct Shadow { int wt, wc; bool watomic; int rc[MAXT]; bool ratomic[MAXT]; };
std::map<uintptr_t, Shadow> shadow;
std::map<uintptr_t, VC> relclk;
std::map<uintptr_t, size_t> allocs, freed;
thread_local int me = 0;
thread_local int inside = 0;
bool on = false;

void fail(int code, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  fprintf(stderr, "SCHED: ");
  vfprintf(stderr, f, ap);
  fprintf(stderr, "\n");
  fflush(stderr);
  _exit(code);
}
void join(VC& a, const VC& b) {
  for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i];
}
bool runnable(int t) {
  if (!alive[t] || ended[t]) return false;
  if (waitcond[t]) return false;
  if (waitmutex[t]) { auto i = owner.find(waitmutex[t]); return i == owner.end() || i->second < 0; }
  if (waitjoin[t] >= 0) return ended[waitjoin[t]];
  return true;
}
void switchto(int t) {
  current = t;
  __real_pthread_cond_signal(&cv[t]);
  while (current != me) __real_pthread_cond_wait(&cv[me], &big);
}
unsigned rand_() { rnd = rnd * 1103515245u + 12345u; return rnd >> 16; }
int pick() {
  std::vector<int> r;
  for (int t = 0; t < nth; t++) if (runnable(t)) r.push_back(t);
  if (r.empty()) return -1;
  return r[rand_() % r.size()];
}
void block() {  // in free run: until this thread can go on
  while (!runnable(me)) {
    int t = pick();
    if (t < 0) fail(42, "deadlock: no thread can go on");
    switchto(t);
  }
}
// called with big held, before an operation of this thread
void turn(char op) {
  if (getenv("VP_TRACE") && op != 'R') fprintf(stderr, "T%d %c pos %zu%s\n", me, op, pos, freerun ? " free" : "");
  for (;;) {
    if (!freerun && pos >= sched.size()) freerun = true;
    if (freerun) {
      if (op == 'R') {
        if (++spins > 3000000) fail(43, "endless wait");
        if (spins % 500) return;
      } else {
        spins = 0;
      }
      int t = pick();
      if (t >= 0 && t != me) switchto(t);
      return;
    }
    if (sched[pos].th == me) {
      if (sched[pos].op == op) { pos++; spins = 0; }
      else if (op == 'R' && ++spins > 3000000) freerun = true;
      return;
    }
    if (op == 'R') {
      // busy-waiting: loads that the schedule does not have happen together with the last one that it has
      size_t i = pos;
      while (i < sched.size() && sched[i].th != me) i++;
      if (i < sched.size() && sched[i].op != op) {
        if (++spins > 3000000) freerun = true;
        return;
      }
    }
    int t = sched[pos].th;
    if (t >= nth || !alive[t] || ended[t]) { freerun = true; continue; }
    switchto(t);
  }
}
struct Lock {
  Lock() { inside++; }
  ~Lock() { inside--; }
};
void chkfree(uintptr_t a, const char* what) {
  auto f = freed.upper_bound(a);
  if (f == freed.begin()) return;
  --f;
  if (a < f->first + f->second) fail(41, "%s of freed memory by thread %d", what, me);
}
void access(uintptr_t a, int n, bool w, bool atomic) {
  if (!on || inside) return;
  Lock l;
  chkfree(a, w ? "write" : "read");
  for (int i = 0; i < n; i++) {
    auto it = shadow.find(a + i);
    if (it == shadow.end()) {
      Shadow s;
      memset(&s, 0, sizeof s);
      s.wt = -1;
      it = shadow.insert(std::make_pair(a + i, s)).first;
    }
    Shadow& s = it->second;
    if (s.wt >= 0 && s.wt != me && s.wc > clk[me][s.wt] && !(atomic && s.watomic))
      fail(40, "data race: %s by thread %d, write by thread %d", w ? "write" : "read", me, s.wt);
    if (w) {
      for (int t = 0; t < nth; t++)
        if (t != me && s.rc[t] > clk[me][t] && !(atomic && s.ratomic[t])) fail(40, "data race: write by thread %d, read by thread %d", me, t);
      s.wt = me; s.wc = clk[me][me]; s.watomic = atomic;
    } else {
      s.rc[me] = clk[me][me]; s.ratomic[me] = atomic;
    }
  }
}
void tick() { clk[me][me]++; }
void* start(void* p) {
  void** a = (void**)p;
  me = (int)(intptr_t)a[2];
  inside++;
  __real_pthread_mutex_lock(&big);
  while (current != me) __real_pthread_cond_wait(&cv[me], &big);
  begun[me] = true;
  turn('B');
  inside--;
  ((void* (*)(void*))a[0])(a[1]);
  inside++;
  turn('E');
  ended[me] = true;
  alive[me] = false;
  int t = -1;
  if (!freerun && pos < sched.size() && sched[pos].th != me && alive[sched[pos].th]) t = sched[pos].th;
  else freerun = true;
  if (t < 0) t = pick();
  if (t < 0) fail(42, "deadlock: no thread can go on");
  current = t;
  __real_pthread_cond_signal(&cv[t]);
  __real_pthread_mutex_unlock(&big);
  return 0;
}
void lockit(const void* m, char op) {
  Lock l;
  chkfree((uintptr_t)m, "lock");
  for (;;) {
    turn(op);
    auto i = owner.find(m);
    if (i == owner.end() || i->second < 0) break;
    if (i->second == me) fail(42, "deadlock: thread %d locks a mutex that it holds", me);
    // not free: the schedule ends here
    freerun = true;
    waitmutex[me] = m;
    block();
    waitmutex[me] = 0;
    op = 'l';
    i = owner.find(m);
    if (i->second < 0) break;
  }
  owner[m] = me;
  if (mclk.count(m)) join(clk[me], mclk[m]);
  tick();
}
void unlockit(const void* m) {
  chkfree((uintptr_t)m, "unlock");
  if (!owner.count(m) || owner[m] != me) fail(45, "unlock of a mutex that is not held");
  owner[m] = -1;
  mclk[m] = clk[me];
  tick();
}
void release(uintptr_t a, int mo, bool rmw) {
  bool rel = mo == 3 || mo == 4 || mo == 5;
  VC& v = relclk[a];
  if (v.empty()) v.assign(MAXT, 0);
  if (!rmw) v.assign(MAXT, 0);
  if (rel) { if (rmw) join(v, clk[me]); else v = clk[me]; }
  tick();
}
void acquire(uintptr_t a, int mo) {
  if ((mo == 1 || mo == 2 || mo == 4 || mo == 5) && relclk.count(a)) join(clk[me], relclk[a]);
}
void unalloc(void* p) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  auto i = allocs.find(a);
  if (i == allocs.end()) { __real_free(p); return; }
  if (on && !inside) {
    access(a, (int)i->second, true, false);
    if (freed.count(a)) fail(41, "double free by thread %d", me);
  }
  freed[a] = i->second;  // kept
}
void* alloc(size_t n, size_t al) {
  void* p = 0;
  if (posix_memalign(&p, al < 16 ? 16 : al, n ? n : 1)) abort();
  if (on && !inside) { Lock l; allocs[(uintptr_t)p] = n ? n : 1; }
  return p;
}
}  // namespace

extern "C" {
void vp_fail(int what, int r, int k) {
  fail(44, "%s (round %d, task %d)", what == 1 ? "task has not run when Execute returns" : what == 2 ? "task ran more than once" : "task without an allocator", r, k);
}
void* __wrap__Znwm(size_t n) { return alloc(n, 16); }
void* __wrap__Znam(size_t n) { return alloc(n, 16); }
void* __wrap_malloc(size_t n) { return alloc(n, 16); }
void __wrap__ZdlPv(void* p) { unalloc(p); }
void __wrap__ZdlPvm(void* p, size_t) { unalloc(p); }
void __wrap__ZdaPv(void* p) { unalloc(p); }
void __wrap__ZdaPvm(void* p, size_t) { unalloc(p); }
void __wrap_free(void* p) { unalloc(p); }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  Lock l;
  turn('C');
  int k = nth++;
  if (k >= MAXT) fail(46, "too many threads");
  alive[k] = true;
  clk[k] = clk[me];
  clk[k][k] = 1;
  tick();
  void** x = new void*[3];
  x[0] = (void*)f; x[1] = arg; x[2] = (void*)(intptr_t)k;
  pthread_t real;
  __real_pthread_create(&real, 0, start, x);
  pthread_detach(real);
  inside--;
  access((uintptr_t)t, sizeof *t, true, false);
  inside++;
  *t = (pthread_t)(0x7000 + k);
  return 0;
}
int __wrap_pthread_join(pthread_t t, void**) {
  Lock l;
  int k = (int)((long)t - 0x7000);
  turn('J');
  if (!ended[k]) { freerun = true; waitjoin[me] = k; block(); waitjoin[me] = -1; }
  join(clk[me], clk[k]);
  tick();
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { lockit(m, 'L'); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { Lock l; turn('U'); unlockit(m); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  {
    Lock l;
    turn('W');
    unlockit(m);
    waitcond[me] = c;
    bool sch = !freerun && pos < sched.size();
    if (sch) {  // spurious wake-ups happen when the schedule says so
      bool mine = false;
      for (size_t i = pos; i < sched.size(); i++) if (sched[i].th == me) { mine = sched[i].op == 'K'; break; }
      if (mine) waitcond[me] = 0;
    }
    if (waitcond[me]) {
      while (waitcond[me]) {
        int t = -1;
        if (!freerun && pos < sched.size() && sched[pos].th != me && alive[sched[pos].th]) t = sched[pos].th;
        else { freerun = true; t = pick(); }
        if (t < 0) fail(42, "deadlock: no thread can go on");
        switchto(t);
      }
    }
  }
  lockit(m, 'K');
  return 0;
}
static void wake(const void* c, bool all) {
  std::vector<int> w;
  for (int t = 0; t < nth; t++) if (waitcond[t] == c) w.push_back(t);
  if (w.empty()) return;
  if (!all) { int k = w[rand_() % w.size()]; w.assign(1, k); }
  for (int t : w) waitcond[t] = 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { Lock l; chkfree((uintptr_t)c, "broadcast"); turn('S'); wake(c, true); return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { Lock l; chkfree((uintptr_t)c, "signal"); turn('S'); wake(c, false); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { access((uintptr_t)m, sizeof *m, true, false); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { access((uintptr_t)m, sizeof *m, true, false); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t* m, const pthread_condattr_t*) { access((uintptr_t)m, sizeof *m, true, false); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* m) { access((uintptr_t)m, sizeof *m, true, false); return 0; }
int __wrap_nanosleep(const struct timespec*, struct timespec*) { return 0; }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, false); } \
  void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, false); } \
  void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, false); } \
  void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, false); } \
  void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, false); } \
  void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, false); } \
  void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, true, false); } \
  void __tsan_unaligned_read_write##n(void* a) { access((uintptr_t)a, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, false); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uintptr_t)a, 8, true, false); }
void __tsan_read_range(void* a, u64 n) { access((uintptr_t)a, n, false, false); }
void __tsan_write_range(void* a, u64 n) { access((uintptr_t)a, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, u64 n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, u64 n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, u64 n) { access((uintptr_t)d, n, true, false); return memset(d, v, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define PRE(a, n, w, op) { { Lock l; turn(op); } access((uintptr_t)a, n, w, true); }
#define RMW(T, name, fn, expr) \
  T __tsan_atomic##name##_##fn(volatile T* a, T v, int mo) { \
    PRE(a, sizeof(T), true, 'M') T o = *a; *a = expr; Lock l; acquire((uintptr_t)a, mo); release((uintptr_t)a, mo, true); return o; }
#define AT(T, name) \
  T __tsan_atomic##name##_load(const volatile T* a, int mo) { PRE(a, sizeof(T), false, 'R') T v = *a; Lock l; acquire((uintptr_t)a, mo); return v; } \
  void __tsan_atomic##name##_store(volatile T* a, T v, int mo) { PRE(a, sizeof(T), true, 'A') *a = v; Lock l; release((uintptr_t)a, mo, false); } \
  RMW(T, name, exchange, v) RMW(T, name, fetch_add, (T)(o + v)) RMW(T, name, fetch_sub, (T)(o - v)) \
  RMW(T, name, fetch_and, (T)(o & v)) RMW(T, name, fetch_or, (T)(o | v)) RMW(T, name, fetch_xor, (T)(o ^ v)) \
  T __tsan_atomic##name##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { \
    PRE(a, sizeof(T), true, 'M') T o = *a; Lock l; acquire((uintptr_t)a, mo); if (o == c) { *a = v; release((uintptr_t)a, mo, true); } return o; } \
  int __tsan_atomic##name##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) { \
    T o = __tsan_atomic##name##_compare_exchange_val(a, *c, v, mo, f); if (o == *c) return 1; *c = o; return 0; } \
  int __tsan_atomic##name##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { \
    return __tsan_atomic##name##_compare_exchange_strong(a, c, v, mo, f); }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
}
// arguments: schedule file (or "-": random), seed, values
int main(int argc, char** argv) {
  for (int i = 0; i < MAXT; i++) { __real_pthread_cond_init(&cv[i], 0); clk[i].assign(MAXT, 0); waitjoin[i] = -1; }
  clk[0][0] = 1;
  rnd = (unsigned)atoi(argv[2]) * 7919u + 1;
  if (strcmp(argv[1], "-")) {
    FILE* f = fopen(argv[1], "r");
    int t;
    char o;
    while (f && fscanf(f, "%d %c", &t, &o) == 2) { Entry e = {t, o}; sched.push_back(e); }
    if (f) fclose(f);
    if (!sched.empty() && sched[0].op == 'B') pos = 1;
  } else {
    freerun = true;
  }
  int64_t V[32] = {0};
  for (int i = 3; i < argc && i < 35; i++) V[i - 3] = atol(argv[i]);
  unsigned char B[8] = {0};
  alive[0] = true;
  __real_pthread_mutex_lock(&big);
  alarm(60);
  on = true;
  VP_MAIN(B, V);
  on = false;
  printf("finished\n");
  fflush(stdout);
  _exit(0);
}
