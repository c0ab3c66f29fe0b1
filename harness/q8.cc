// The quantized GEMM with uint8 results (Gemm()), through the public API and through the EightBitIntGemm interface.
#include "vp.h"
#include <tuple>
#include "public/gemmlowp.h"
#include "eight_bit_int_gemm/eight_bit_int_gemm.cc"
using namespace gemmlowp;
// V: rows depth cols lhs_stride rhs_stride res_stride threads l1 l2 l2p shift legacy_bits
// B: lhs rhs result params{lhs_offset, rhs_offset, result_offset, mult}
template <MapOrder L, MapOrder R, MapOrder O, typename BD>
static void q8(vp_byte** B, const std::int64_t* V) {
  const int rows = V[0], depth = V[1], cols = V[2];
  MatrixMap<const std::uint8_t, L> lhs(B[0], rows, depth, V[3]);
  MatrixMap<const std::uint8_t, R> rhs(B[1], depth, cols, V[4]);
  MatrixMap<std::uint8_t, O> res(B[2], rows, cols, V[5]);
  const std::int32_t* p = reinterpret_cast<const std::int32_t*>(B[3]);
  GemmContext ctx;
  ctx.set_max_num_threads(V[6]);
  if (V[7]) ctx.set_l1_bytes_to_use(V[7]);
  if (V[8]) ctx.set_l2_bytes_to_use(V[8]);
  if (V[9]) ctx.set_l2_rhs_factor(V[9] / 100.0f);
  Gemm<std::uint8_t, BD>(&ctx, lhs, rhs, &res, p[0], p[1], p[2], p[3], V[10]);
}
#define RM MapOrder::RowMajor
#define CM MapOrder::ColMajor
#define E(n, l, r, o) \
  VP_ENTRY(q8_##n) { q8<l, r, o, DefaultL8R8BitDepthParams>(B, V); }
E(rcr, RM, CM, RM) E(rcc, RM, CM, CM) E(rrr, RM, RM, RM) E(crc, CM, RM, CM) E(ccr, CM, CM, RM) E(ccc, CM, CM, CM)
#define BITS(v) ((v) ? eight_bit_int_gemm::BitDepthSetting::A5B7 : eight_bit_int_gemm::BitDepthSetting::A8B8)
// legacy interface: transpose flags in V[11..13], bits in V[14], threads in V[6]
VP_ENTRY(legacy_q8) {
  const std::int32_t* p = reinterpret_cast<const std::int32_t*>(B[3]);
  if (V[6] != 1) eight_bit_int_gemm::SetMaxNumThreads(V[6]);
  eight_bit_int_gemm::EightBitIntGemm(V[11], V[12], V[13], V[0], V[2], V[1], B[0], p[0], V[3], B[1], p[1], V[4], B[2], p[2], p[3], V[10], V[5],
                                      BITS(V[14]));
  if (V[15]) eight_bit_int_gemm::FreePersistentResources();
}
VP_ENTRY(legacy_f) {
  const std::int32_t* p = reinterpret_cast<const std::int32_t*>(B[3]);
  const float* f = reinterpret_cast<const float*>(B[3]) + 2;
  if (V[6] != 1) eight_bit_int_gemm::SetMaxNumThreads(V[6]);
  eight_bit_int_gemm::EightBitIntGemm(V[11], V[12], V[13], V[0], V[2], V[1], B[0], p[0], V[3], B[1], p[1], V[4], reinterpret_cast<float*>(B[2]), f[0],
                                      V[5], BITS(V[14]));
  if (V[15]) eight_bit_int_gemm::FreePersistentResources();
}
// history: a first call with other sizes on the same global state; B: 4 buffers per call, V: 16 numbers per call
VP_ENTRY(legacy_twice) {
  if (V[15] == 1) legacy_q8(B, V); else legacy_f(B, V);
  if (V[31] == 1) legacy_q8(B + 4, V + 16); else legacy_f(B + 4, V + 16);
  eight_bit_int_gemm::FreePersistentResources();
}
