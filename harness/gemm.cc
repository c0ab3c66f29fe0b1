// GEMM through the public API, int32 results (no output stage), all storage orders.
//   -DVP_BD=0 uint8, any values        1 uint8, LHS never 0
//          2 uint8, RHS 4-bit          3 int8, LHS never -128
#include "vp.h"
#include <tuple>
#include "public/gemmlowp.h"
using namespace gemmlowp;
#ifndef VP_BD
#define VP_BD 0
#endif
#if VP_BD == 0
typedef DefaultL8R8BitDepthParams BD;
#elif VP_BD == 1
typedef L8R8WithLhsNonzeroBitDepthParams BD;
#elif VP_BD == 2
typedef BitDepthParams<OperandRange<0, 255>, OperandRange<0, 15> > BD;
#else
typedef SignedL8R8WithLhsNonzeroBitDepthParams BD;
#endif
#if VP_BD == 3
typedef std::int8_t In;
#else
typedef std::uint8_t In;
#endif
// V: rows depth cols lhs_stride rhs_stride res_stride threads l1 l2 l2rhs_percent
// B: lhs rhs result offsets{lhs,rhs}
template <MapOrder L, MapOrder R, MapOrder O>
static void gemm32(vp_byte** B, const std::int64_t* V) {
  const int rows = V[0], depth = V[1], cols = V[2];
  MatrixMap<const In, L> lhs(reinterpret_cast<const In*>(B[0]), rows, depth, V[3]);
  MatrixMap<const In, R> rhs(reinterpret_cast<const In*>(B[1]), depth, cols, V[4]);
  MatrixMap<std::int32_t, O> res(reinterpret_cast<std::int32_t*>(B[2]), rows, cols, V[5]);
  const std::int32_t* off = reinterpret_cast<const std::int32_t*>(B[3]);
  GemmContext ctx;
  ctx.set_max_num_threads(V[6]);
  if (V[7]) ctx.set_l1_bytes_to_use(V[7]);
  if (V[8]) ctx.set_l2_bytes_to_use(V[8]);
  if (V[9]) ctx.set_l2_rhs_factor(V[9] / 100.0f);
  GemmWithOutputPipeline<In, std::int32_t, BD>(&ctx, lhs, rhs, &res, off[0], off[1], std::make_tuple());
}
#define RM MapOrder::RowMajor
#define CM MapOrder::ColMajor
#define E(n, l, r, o) \
  VP_ENTRY(n) { gemm32<l, r, o>(B, V); }
E(gemm_rcr, RM, CM, RM) E(gemm_rcc, RM, CM, CM)
#if VP_BD != 3  // int8 inputs are only supported in this order
E(gemm_rrr, RM, RM, RM) E(gemm_rrc, RM, RM, CM)
E(gemm_crr, CM, RM, RM) E(gemm_crc, CM, RM, CM) E(gemm_ccr, CM, CM, RM) E(gemm_ccc, CM, CM, CM)
#endif
