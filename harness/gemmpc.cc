// Per-channel offsets: -DVP_LO bit 0: one left offset per row (else a duplicated scalar), bit 1: one right offset per column.
#include "vp.h"
#include <tuple>
#include "public/gemmlowp.h"
using namespace gemmlowp;
typedef VectorMap<const std::int32_t, VectorShape::Col> ColVec;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowVec;
typedef VectorDup<const std::int32_t, VectorShape::Col> ColDup;
typedef VectorDup<const std::int32_t, VectorShape::Row> RowDup;
// V: rows depth cols lhs_stride rhs_stride res_stride threads l1 l2 l2rhs_percent
// B: lhs rhs result lhs_offsets rhs_offsets
template <MapOrder L, MapOrder R, MapOrder O>
static void go(vp_byte** B, const std::int64_t* V) {
  const int rows = V[0], depth = V[1], cols = V[2];
  MatrixMap<const std::uint8_t, L> lhs(B[0], rows, depth, V[3]);
  MatrixMap<const std::uint8_t, R> rhs(B[1], depth, cols, V[4]);
  MatrixMap<std::int32_t, O> res(reinterpret_cast<std::int32_t*>(B[2]), rows, cols, V[5]);
  const std::int32_t* lo = reinterpret_cast<const std::int32_t*>(B[3]);
  const std::int32_t* ro = reinterpret_cast<const std::int32_t*>(B[4]);
  GemmContext ctx;
  ctx.set_max_num_threads(V[6]);
  if (V[7]) ctx.set_l1_bytes_to_use(V[7]);
  if (V[8]) ctx.set_l2_bytes_to_use(V[8]);
  if (V[9]) ctx.set_l2_rhs_factor(V[9] / 100.0f);
#if VP_LO & 1
  ColVec a(lo, rows);
#else
  ColDup a(lo[0], rows);
#endif
#if VP_LO & 2
  RowVec b(ro, cols);
#else
  RowDup b(ro[0], cols);
#endif
  GemmWithOutputPipelinePC<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(&ctx, lhs, rhs, &res, a, b, std::make_tuple());
}
#define RM MapOrder::RowMajor
#define CM MapOrder::ColMajor
#define E(n, l, r, o) \
  VP_ENTRY(n) { go<l, r, o>(B, V); }
E(gemm_rrr, RM, RM, RM) E(gemm_rrc, RM, RM, CM) E(gemm_rcr, RM, CM, RM) E(gemm_rcc, RM, CM, CM)
E(gemm_crr, CM, RM, RM) E(gemm_crc, CM, RM, CM) E(gemm_ccr, CM, CM, RM) E(gemm_ccc, CM, CM, CM)
