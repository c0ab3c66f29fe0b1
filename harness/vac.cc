// GEMM entry points with arbitrary sizes of which at least one is zero.
#include "vp.h"
#include <tuple>
#include "public/gemmlowp.h"
using namespace gemmlowp;
#if defined(VP_S8)
typedef std::int8_t In;
typedef SignedL8R8WithLhsNonzeroBitDepthParams BD;
#else
typedef std::uint8_t In;
typedef DefaultL8R8BitDepthParams BD;
#endif
// V: rows depth cols lhs_stride rhs_stride res_stride threads
// B: lhs rhs result lhs_offsets rhs_offsets
template <typename Out, MapOrder L, MapOrder R, MapOrder O>
struct Maps {
  MatrixMap<const In, L> lhs;
  MatrixMap<const In, R> rhs;
  MatrixMap<Out, O> res;
  Maps(vp_byte** B, const std::int64_t* V)
      : lhs(reinterpret_cast<const In*>(B[0]), V[0], V[1], V[3]),
        rhs(reinterpret_cast<const In*>(B[1]), V[1], V[2], V[4]),
        res(reinterpret_cast<Out*>(B[2]), V[0], V[2], V[5]) {}
};
template <MapOrder L, MapOrder R, MapOrder O>
static void g32(vp_byte** B, const std::int64_t* V) {
  Maps<std::int32_t, L, R, O> m(B, V);
  GemmContext ctx;
  ctx.set_max_num_threads(V[6]);
  GemmWithOutputPipeline<In, std::int32_t, BD>(&ctx, m.lhs, m.rhs, &m.res, -7, 11, std::make_tuple());
}
template <MapOrder L, MapOrder R, MapOrder O>
static void gpc(vp_byte** B, const std::int64_t* V) {
  Maps<std::int32_t, L, R, O> m(B, V);
  GemmContext ctx;
  ctx.set_max_num_threads(V[6]);
  VectorMap<const std::int32_t, VectorShape::Col> a(reinterpret_cast<const std::int32_t*>(B[3]), V[0]);
  VectorMap<const std::int32_t, VectorShape::Row> b(reinterpret_cast<const std::int32_t*>(B[4]), V[2]);
  GemmWithOutputPipelinePC<In, std::int32_t, BD>(&ctx, m.lhs, m.rhs, &m.res, a, b, std::make_tuple());
}
#define RM MapOrder::RowMajor
#define CM MapOrder::ColMajor
VP_ENTRY(v32_rcr) { g32<RM, CM, RM>(B, V); }
VP_ENTRY(v32_rcc) { g32<RM, CM, CM>(B, V); }
VP_ENTRY(vpc_rcr) { gpc<RM, CM, RM>(B, V); }
VP_ENTRY(vpc_rcc) { gpc<RM, CM, CM>(B, V); }
#ifndef VP_S8
template <MapOrder L, MapOrder R, MapOrder O>
static void g8(vp_byte** B, const std::int64_t* V) {
  Maps<In, L, R, O> m(B, V);
  GemmContext ctx;
  ctx.set_max_num_threads(V[6]);
  Gemm<In, BD>(&ctx, m.lhs, m.rhs, &m.res, -7, 11, 3, 5, 8);
}
VP_ENTRY(v32_rrr) { g32<RM, RM, RM>(B, V); }
VP_ENTRY(v32_crc) { g32<CM, RM, CM>(B, V); }
VP_ENTRY(v32_ccr) { g32<CM, CM, RM>(B, V); }
VP_ENTRY(vpc_ccc) { gpc<CM, CM, CM>(B, V); }
VP_ENTRY(v8_rcc) { g8<RM, CM, CM>(B, V); }
VP_ENTRY(v8_crr) { g8<CM, RM, RM>(B, V); }
#endif
