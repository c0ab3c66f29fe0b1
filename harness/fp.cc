// Fixed-point primitives: entry fp_OP_TYPE applies OP to lane-packed buffers.
// TYPE s32 s16 (scalars) s8 (SaturatingAdd only), v32 v16 (the platform's SIMD raw types).
// B: a b c out   V: shift amount
#include "vp.h"
#include <cstring>
#include "fixedpoint/fixedpoint.h"
#include "internal/detect_platform.h"
using namespace gemmlowp;
#if defined(GEMMLOWP_NEON)
typedef int32x4_t V32;
typedef int16x8_t V16;
#define HAVE_V 1
#elif defined(GEMMLOWP_AVX2)
typedef __m256i V32;
typedef int16x16_m256i V16;
#define HAVE_V 1
#elif defined(GEMMLOWP_SSE4)
typedef __m128i V32;
typedef int16x8_m128i V16;
#define HAVE_V 1
#endif
template <typename T>
static inline T ld(const vp_byte* p) {
  T r;
  memcpy(&r, p, sizeof r);
  return r;
}
template <typename T>
static inline void st(vp_byte* p, T r) {
  memcpy(p, &r, sizeof r);
}
template <typename T>
static inline void stb(vp_byte* p, bool r) {
  *p = r;
}
#define A_ ld<T>(B[0])
#define B_ ld<T>(B[1])
#define C_ ld<T>(B[2])
#define N_ static_cast<int>(V[0])
#define ALLT(M, n, e) M(n, s32, std::int32_t, e) M(n, s16, std::int16_t, e) VT(M, n, e)
#ifdef HAVE_V
#define VT(M, n, e) M(n, v32, V32, e) M(n, v16, V16, e)
#else
#define VT(M, n, e)
#endif
#define OP(n, t, ty, e) \
  VP_ENTRY(fp_##n##_##t) { typedef ty T; st<T>(B[3], e); }
#define PRED(n, t, ty, e) \
  VP_ENTRY(fp_##n##_##t) { typedef ty T; stb<T>(B[3], e); }
#ifndef VP_POT
ALLT(OP, add, Add(A_, B_))
ALLT(OP, sub, Sub(A_, B_))
// gcc has no operator* for SSE/AVX/NEON raw struct types; each type has its own specialisation or vector operator.
ALLT(OP, mul, Mul(A_, B_))
ALLT(OP, and, BitAnd(A_, B_))
ALLT(OP, or, BitOr(A_, B_))
ALLT(OP, xor, BitXor(A_, B_))
ALLT(OP, not, BitNot(A_))
ALLT(OP, neg, Neg(A_))
ALLT(OP, dup, Dup<T>(ld<FixedPointRawTypeTraits<T>::ScalarRawType>(B[0])))
ALLT(OP, shl, ShiftLeft(A_, N_))
ALLT(OP, shr, ShiftRight(A_, N_))
ALLT(OP, sel, SelectUsingMask(C_, A_, B_))
ALLT(OP, ifz, MaskIfZero(A_))
ALLT(OP, ifnz, MaskIfNonZero(A_))
ALLT(OP, ifeq, MaskIfEqual(A_, B_))
ALLT(OP, ifne, MaskIfNotEqual(A_, B_))
ALLT(OP, ifgt, MaskIfGreaterThan(A_, B_))
ALLT(OP, ifge, MaskIfGreaterThanOrEqual(A_, B_))
ALLT(OP, iflt, MaskIfLessThan(A_, B_))
ALLT(OP, ifle, MaskIfLessThanOrEqual(A_, B_))
#define LANES(n, t, ty, e) \
  VP_ENTRY(fp_##n##_##t) { *B[3] = FixedPointRawTypeTraits<ty>::kLanes; }
ALLT(LANES, lanes, 0)
ALLT(PRED, all, All(C_))
ALLT(PRED, any, Any(C_))
ALLT(OP, rhs, RoundingHalfSum(A_, B_))
ALLT(OP, srdhm, SaturatingRoundingDoublingHighMul(A_, B_))
ALLT(OP, rdpot, RoundingDivideByPOT(A_, N_))
ALLT(OP, addsat16, AddSaturatingIf16Bit(A_, B_))
OP(satadd, s16, std::int16_t, SaturatingAdd(A_, B_))
OP(satadd, s8, std::int8_t, SaturatingAdd(A_, B_))
#ifdef HAVE_V
OP(satadd, v16, V16, SaturatingAdd(A_, B_))
#endif
// FixedPoint class operators (2 integer bits) and constants
#define F2 typedef FixedPoint<T, 2> F; typedef FixedPoint<T, 1> G; typedef FixedPoint<T, 0> H; F a = F::FromRaw(A_), b = F::FromRaw(B_); G g = G::FromRaw(B_); (void)a; (void)b; (void)g;
#define FOP(n, t, ty, e) \
  VP_ENTRY(fp_##n##_##t) { typedef ty T; F2 st<T>(B[3], (e).raw()); }
#define FRAW(n, t, ty, e) \
  VP_ENTRY(fp_##n##_##t) { typedef ty T; F2 st<T>(B[3], e); }
#define FPRED(n, t, ty, e) \
  VP_ENTRY(fp_##n##_##t) { typedef ty T; F2 stb<T>(B[3], e); }
ALLT(FOP, F_mul, a * g)
ALLT(FOP, F_neg, -a)
ALLT(FOP, F_not, ~a)
ALLT(FOP, F_add, a + b)
ALLT(FOP, F_sub, a - b)
ALLT(FOP, F_and, a & b)
ALLT(FOP, F_xor, a ^ b)
ALLT(FOP, F_or, a | b)
ALLT(FOP, F_rhs, RoundingHalfSum(a, b))
ALLT(FOP, F_addsat16, AddSaturatingIf16Bit(a, b))
ALLT(FRAW, F_ifz, MaskIfZero(a))
ALLT(FRAW, F_ifnz, MaskIfNonZero(a))
ALLT(FRAW, F_ifeq, MaskIfEqual(a, b))
ALLT(FRAW, F_ifne, MaskIfNotEqual(a, b))
ALLT(FRAW, F_ifgt, MaskIfGreaterThan(a, b))
ALLT(FRAW, F_ifge, MaskIfGreaterThanOrEqual(a, b))
ALLT(FRAW, F_iflt, MaskIfLessThan(a, b))
ALLT(FRAW, F_ifle, MaskIfLessThanOrEqual(a, b))
ALLT(FOP, F_sel, SelectUsingMask(C_, a, b))
ALLT(FPRED, F_eq, a == b)
ALLT(FPRED, F_ne, a != b)
ALLT(FOP, F_one, F::One())
ALLT(FOP, F_zero, F::Zero())
ALLT(FOP, F_one0, H::One())
ALLT(FOP, F_pot, F::template ConstantPOT<-3>())
ALLT(FOP, F_exact, ExactMulByPot<-1>(a))
ALLT(FOP, F_up, Rescale<0>(a))
ALLT(FOP, F_down, Rescale<5>(a))
ALLT(FOP, F_same, Rescale<2>(a))
// constants specified as int32 raw values
ALLT(FOP, F_const, GEMMLOWP_CHECKED_FIXEDPOINT_CONSTANT(F, ld<std::int32_t>(B[2]), 0.0))
#else
// saturating/rounding multiplication by each compile-time power of two
#define BOTH(k) P1(s32, std::int32_t, k) P1V(v32, V32, k)
#define BOTH16(k) BOTH(k) P1(s16, std::int16_t, k) P1V(v16, V16, k)
#define P1(t, ty, k)                                                                             \
  VP_ENTRY(pot_p##k##_##t) { typedef ty T; st<T>(B[3], SaturatingRoundingMultiplyByPOT<k>(A_)); } \
  VP_ENTRY(pot_m##k##_##t) { typedef ty T; st<T>(B[3], SaturatingRoundingMultiplyByPOT<-(k)>(A_)); }
#ifdef HAVE_V
#define P1V(t, ty, k) P1(t, ty, k)
#else
#define P1V(t, ty, k)
#endif
BOTH16(0) BOTH16(1) BOTH16(2) BOTH16(3) BOTH16(4) BOTH16(5) BOTH16(6) BOTH16(7) BOTH16(8) BOTH16(9) BOTH16(10)
BOTH16(11) BOTH16(12) BOTH16(13) BOTH16(14)
BOTH(15) BOTH(16) BOTH(17) BOTH(18) BOTH(19) BOTH(20) BOTH(21) BOTH(22) BOTH(23) BOTH(24) BOTH(25) BOTH(26) BOTH(27)
BOTH(28) BOTH(29) BOTH(30)
#endif
