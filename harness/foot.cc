// GEMM through the public API with every result type: what memory it touches.
//   -DVP_OUT=0 int32   1 uint8   2 int16   3 int8 (NEON)     -DVP_BD as in gemm.cc
#include "vp.h"
#include <tuple>
#include "public/gemmlowp.h"
using namespace gemmlowp;
#ifndef VP_BD
#define VP_BD 0
#endif
#ifndef VP_OUT
#define VP_OUT 0
#endif
#if VP_BD == 0
typedef DefaultL8R8BitDepthParams BD;
#elif VP_BD == 1
typedef L8R8WithLhsNonzeroBitDepthParams BD;
#elif VP_BD == 2
typedef BitDepthParams<OperandRange<0, 255>, OperandRange<0, 15> > BD;
#else
typedef SignedL8R8WithLhsNonzeroBitDepthParams BD;
#endif
#if VP_BD == 3
typedef std::int8_t In;
#else
typedef std::uint8_t In;
#endif
#if VP_OUT == 0
typedef std::int32_t Out;
static std::tuple<> pipe() { return std::tuple<>(); }
#elif VP_OUT == 1
typedef std::uint8_t Out;
static std::tuple<OutputStageSaturatingCastToUint8> pipe() { return std::make_tuple(OutputStageSaturatingCastToUint8()); }
#elif VP_OUT == 2
typedef std::int16_t Out;
static std::tuple<OutputStageSaturatingCastToInt16> pipe() { return std::make_tuple(OutputStageSaturatingCastToInt16()); }
#else
typedef std::int8_t Out;
static std::tuple<OutputStageSaturatingCastToInt8> pipe() { return std::make_tuple(OutputStageSaturatingCastToInt8()); }
#endif
// V: rows depth cols lhs_stride rhs_stride res_stride threads l1 l2 l2rhs_percent pc
// B: lhs rhs result lhs_offsets rhs_offsets
template <MapOrder L, MapOrder R, MapOrder O>
static void go(vp_byte** B, const std::int64_t* V) {
  const int rows = V[0], depth = V[1], cols = V[2];
  MatrixMap<const In, L> lhs(reinterpret_cast<const In*>(B[0]), rows, depth, V[3]);
  MatrixMap<const In, R> rhs(reinterpret_cast<const In*>(B[1]), depth, cols, V[4]);
  MatrixMap<Out, O> res(reinterpret_cast<Out*>(B[2]), rows, cols, V[5]);
  const std::int32_t* lo = reinterpret_cast<const std::int32_t*>(B[3]);
  const std::int32_t* ro = reinterpret_cast<const std::int32_t*>(B[4]);
  GemmContext ctx;
  ctx.set_max_num_threads(V[6]);
  if (V[7]) ctx.set_l1_bytes_to_use(V[7]);
  if (V[8]) ctx.set_l2_bytes_to_use(V[8]);
  if (V[9]) ctx.set_l2_rhs_factor(V[9] / 100.0f);
  if (V[10]) {
    VectorMap<const std::int32_t, VectorShape::Col> a(lo, rows);
    VectorMap<const std::int32_t, VectorShape::Row> b(ro, cols);
    GemmWithOutputPipelinePC<In, Out, BD>(&ctx, lhs, rhs, &res, a, b, pipe());
  } else {
    GemmWithOutputPipeline<In, Out, BD>(&ctx, lhs, rhs, &res, -3, 5, pipe());
  }
}
#define RM MapOrder::RowMajor
#define CM MapOrder::ColMajor
#define E(n, l, r, o) \
  VP_ENTRY(n) { go<l, r, o>(B, V); }
E(foot_rcr, RM, CM, RM) E(foot_rcc, RM, CM, CM)
#if VP_BD != 3
E(foot_rrr, RM, RM, RM) E(foot_rrc, RM, RM, CM)
E(foot_crr, CM, RM, RM) E(foot_crc, CM, RM, CM) E(foot_ccr, CM, CM, RM) E(foot_ccc, CM, CM, CM)
#endif
