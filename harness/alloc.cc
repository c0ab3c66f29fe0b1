// Histories of the Allocator: reserve, commit, get pointers, decommit, again.  The system allocator underneath is a stand-in
// that hands out made-up addresses (never dereferenced) and records every call.
#include "vp.h"
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <cmath>
#include <condition_variable>
#include <iostream>
#include <limits>
#include <mutex>
#include <string>
#include <vector>
#include <stdlib.h>
#include <unistd.h>
#include <time.h>
static std::uint64_t vp_base, vp_size;   // live storage (0: none)
static std::uint64_t vp_allocs, vp_frees, vp_bad, vp_fail;
static int vp_memalign(void** p, std::size_t align, std::size_t size) {
  if (vp_fail) return 12;
  if (vp_base || !align || (align & (align - 1))) vp_bad++;
  vp_allocs++;
  vp_base = (vp_allocs << 24) + align;
  vp_size = size;
  *p = reinterpret_cast<void*>(static_cast<std::uintptr_t>(vp_base));
  return 0;
}
static void vp_release(void* p) {
  if (!p) return;
  if (reinterpret_cast<std::uintptr_t>(p) != vp_base) vp_bad++;
  vp_frees++;
  vp_base = vp_size = 0;
}
#define posix_memalign vp_memalign
#define free vp_release
#include "internal/allocator.h"
#undef free
#undef posix_memalign
using namespace gemmlowp;
// out, per generation: base size (ptr bytes)*5; at the end allocs frees bad
template <int K>
struct Gen {
  static std::uint64_t* go(Allocator* a, const std::int64_t* n, int types, std::uint64_t* o) {
    Allocator::Handle h[K];
    for (int i = 0; i < K; i++) {
      switch ((types >> (2 * i)) & 3) {
        case 0: h[i] = a->Reserve<std::uint8_t>(n[i]); break;
        case 1: h[i] = a->Reserve<std::int32_t>(n[i]); break;
        case 2: h[i] = a->Reserve<std::int16_t>(n[i]); break;
        default: h[i] = a->Reserve<const std::uint32_t>(n[i]); break;
      }
    }
    a->Commit();
    *o++ = vp_base;
    *o++ = vp_size;
    for (int i = K - 1; i >= 0; i--) {   // handles may be resolved in any order
      std::uintptr_t p;
      int s = 1;
      switch ((types >> (2 * i)) & 3) {
        case 0: p = reinterpret_cast<std::uintptr_t>(a->GetPointer<std::uint8_t>(h[i])); break;
        case 1: p = reinterpret_cast<std::uintptr_t>(a->GetPointer<std::int32_t>(h[i])); s = 4; break;
        case 2: p = reinterpret_cast<std::uintptr_t>(a->GetPointer<std::int16_t>(h[i])); s = 2; break;
        default: p = reinterpret_cast<std::uintptr_t>(a->GetPointer<const std::uint32_t>(h[i])); s = 4; break;
      }
      o[2 * i] = p;
      o[2 * i + 1] = static_cast<std::uint64_t>(n[i]) * s;
    }
    a->Decommit();
    return o + 2 * K;
  }
};
static void start(std::int64_t fail) { vp_base = vp_size = vp_allocs = vp_frees = vp_bad = 0; vp_fail = fail; }
static void stop(std::uint64_t* o) { o[0] = vp_allocs; o[1] = vp_frees; o[2] = vp_bad; o[3] = vp_base; }
// V: fail, sizes...
#define HIST(name, K1, T1, K2, T2, K3, T3)                            \
  VP_ENTRY(name) {                                                    \
    start(V[0]);                                                      \
    std::uint64_t* o = reinterpret_cast<std::uint64_t*>(B[0]);        \
    {                                                                 \
      Allocator a;                                                    \
      o = Gen<K1>::go(&a, V + 1, T1, o);                              \
      o = Gen<K2>::go(&a, V + 1 + K1, T2, o);                         \
      o = Gen<K3>::go(&a, V + 1 + K1 + K2, T3, o);                    \
    }                                                                 \
    stop(o);                                                          \
  }
HIST(hist_a, 3, 0x10, 2, 0x1, 1, 0x1)
HIST(hist_b, 1, 0x2, 5, 0x1b1, 2, 0x4)
HIST(hist_c, 5, 0x111, 1, 0x0, 3, 0x12)
HIST(hist_d, 4, 0x56, 4, 0x99, 4, 0x0)
