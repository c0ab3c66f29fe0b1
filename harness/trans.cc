// Fixed-point transcendental functions: scalar and SIMD side by side.
// -DVP_IB=integer bits of the argument.  B: a simd_out scalar_out ; entries t_FN_{32,16} (SIMD + scalar per lane), u_FN_{32,16} (scalar only)
#include "vp.h"
#include <cstring>
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
#ifndef VP_IB
#define VP_IB 3
#endif
#if defined(GEMMLOWP_NEON)
typedef int32x4_t V32;
typedef int16x8_t V16;
#define HAVE_V 1
#elif defined(GEMMLOWP_AVX2)
typedef __m256i V32;
typedef int16x16_m256i V16;
#define HAVE_V 1
#elif defined(GEMMLOWP_SSE4)
typedef __m128i V32;
typedef int16x8_m128i V16;
#define HAVE_V 1
#endif
struct Exp { template <typename T> static T f(T x) { return exp_on_negative_values(FixedPoint<T, VP_IB>::FromRaw(x)).raw(); } };
struct Tanh { template <typename T> static T f(T x) { return tanh(FixedPoint<T, VP_IB>::FromRaw(x)).raw(); } };
struct NegTanh { template <typename T> static T f(T x) { return neg_tanh_on_negative_values(FixedPoint<T, VP_IB>::FromRaw(x)).raw(); } };
struct Logistic { template <typename T> static T f(T x) { return logistic(FixedPoint<T, VP_IB>::FromRaw(x)).raw(); } };
struct LogPos { template <typename T> static T f(T x) { return logistic_on_positive_values(FixedPoint<T, VP_IB>::FromRaw(x)).raw(); } };
struct ExpQ { template <typename T> static T f(T x) { return exp_on_interval_between_negative_one_quarter_and_0_excl(FixedPoint<T, 0>::FromRaw(x)).raw(); } };
struct Inv { template <typename T> static T f(T x) { return one_over_one_plus_x_for_x_in_0_1(FixedPoint<T, 0>::FromRaw(x)).raw(); } };
struct Mob { template <typename T> static T f(T x) { return one_minus_x_over_one_plus_x_for_x_in_0_1(FixedPoint<T, 0>::FromRaw(x)).raw(); } };
template <typename F, typename T>
static void sc(vp_byte** B) {
  T x;
  memcpy(&x, B[0], sizeof x);
  T r = F::template f<T>(x);
  memcpy(B[2], &r, sizeof r);
}
template <typename F, typename T, typename V>
static void both(vp_byte** B) {
  V x;
  memcpy(&x, B[0], sizeof x);
  V r = F::template f<V>(x);
  memcpy(B[1], &r, sizeof r);
  for (unsigned i = 0; i < sizeof(V) / sizeof(T); i++) {
    T y;
    memcpy(&y, B[0] + i * sizeof(T), sizeof y);
    T s = F::template f<T>(y);
    memcpy(B[2] + i * sizeof(T), &s, sizeof s);
  }
}
#ifdef HAVE_V
#define BOTH(n, F) VP_ENTRY(t_##n##_32) { both<F, std::int32_t, V32>(B); } VP_ENTRY(t_##n##_16) { both<F, std::int16_t, V16>(B); }
#else
#define BOTH(n, F)
#endif
#define E(n, F) BOTH(n, F) VP_ENTRY(u_##n##_32) { sc<F, std::int32_t>(B); } VP_ENTRY(u_##n##_16) { sc<F, std::int16_t>(B); }
E(exp, Exp) E(tanh, Tanh) E(logistic, Logistic) E(ntanh, NegTanh) E(logpos, LogPos)
#if VP_IB == 0
E(expq, ExpQ) E(inv, Inv) E(mob, Mob)
#endif
