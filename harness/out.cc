// Output pipelines through the public API on arbitrary int32 accumulators:
// the operands are zero, the right-hand offset is one and the depth is one, so
// the accumulator of row i is the i-th left-hand offset, which is arbitrary;
// the row bias vector then makes every entry's value different.
#include "vp.h"
#include <tuple>
#include "public/gemmlowp.h"
using namespace gemmlowp;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowVec;
typedef VectorMap<const std::int32_t, VectorShape::Col> ColVec;
// V: rows cols res_stride
// B: lhs_offsets bias result params vecA vecB lhs rhs col_bias
template <typename Out, MapOrder O, typename Pipe>
static void run(vp_byte** B, const std::int64_t* V, const Pipe& pipe) {
  const int rows = V[0], cols = V[1];
  MatrixMap<const std::uint8_t, MapOrder::RowMajor> lhs(B[6], rows, 1);
  MatrixMap<const std::uint8_t, MapOrder::ColMajor> rhs(B[7], 1, cols);
  MatrixMap<Out, O> res(reinterpret_cast<Out*>(B[2]), rows, cols, V[2]);
  ColVec lo(reinterpret_cast<const std::int32_t*>(B[0]), rows);
  VectorDup<const std::int32_t, VectorShape::Row> ro(1, cols);
  GemmContext ctx;
  ctx.set_max_num_threads(1);
  GemmWithOutputPipelinePC<std::uint8_t, Out, DefaultL8R8BitDepthParams>(&ctx, lhs, rhs, &res, lo, ro, pipe);
}
template <MapOrder O>
static void go(vp_byte** B, const std::int64_t* V) {
  const int rows = V[0], cols = V[1];
  (void)rows;
  (void)cols;
  const std::int32_t* p = reinterpret_cast<const std::int32_t*>(B[3]);
  const std::int32_t* va = reinterpret_cast<const std::int32_t*>(B[4]);
  const std::int32_t* vb = reinterpret_cast<const std::int32_t*>(B[5]);
  const std::int32_t* bi = reinterpret_cast<const std::int32_t*>(B[1]);
  (void)p;
  (void)va;
  (void)vb;
  OutputStageBiasAddition<RowVec> bias;
  bias.bias_vector = RowVec(bi, cols);
  OutputStageBiasAddition<ColVec> cbias;
  cbias.bias_vector = ColVec(reinterpret_cast<const std::int32_t*>(B[8]), rows);
  OutputStageSaturatingCastToUint8 u8;
  OutputStageQuantizeDownInt32ToUint8Scale q;
  q.result_offset = p[0];
  q.result_mult_int = p[1];
  q.result_shift = p[2];
  OutputStageQuantizeDownInt32ByFixedPoint f;
  f.result_fixedpoint_multiplier = p[0];
  f.result_shift = p[1];
  f.result_offset_after_shift = p[2];
  OutputStageScaleInt32ByFixedPointAndExponent e;
  e.result_fixedpoint_multiplier = p[0];
  e.result_exponent = p[1];
  e.result_offset_after_shift = p[2];
  OutputStageClamp cl;
  cl.min = p[3];
  cl.max = p[4];
  (void)q;
  (void)f;
  (void)e;
  (void)cl;
  (void)u8;
#if VP_STAGE == 1
  run<std::int32_t, O>(B, V, std::make_tuple(bias, q));
#elif VP_STAGE == 2
  run<std::uint8_t, O>(B, V, std::make_tuple(bias, q, u8));
#elif VP_STAGE == 3
  OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Col> s;
  s.result_offset = ColVec(va, rows);
  s.result_mult_int = ColVec(vb, rows);
  s.result_shift = p[2];
  run<std::int32_t, O>(B, V, std::make_tuple(bias, s));
#elif VP_STAGE == 4
  OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Row> s;
  s.result_offset = RowVec(va, cols);
  s.result_mult_int = RowVec(vb, cols);
  s.result_shift = p[2];
  run<std::int32_t, O>(B, V, std::make_tuple(cbias, s));
#elif VP_STAGE == 5
  run<std::int32_t, O>(B, V, std::make_tuple(bias, f));
#elif VP_STAGE == 6
  run<std::int32_t, O>(B, V, std::make_tuple(bias, e));
#elif VP_STAGE == 7
  OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Col> s;
  s.result_fixedpoint_multiplier = ColVec(va, rows);
  s.result_exponent = ColVec(vb, rows);
  s.result_offset_after_shift = p[2];
  run<std::int32_t, O>(B, V, std::make_tuple(bias, s));
#elif VP_STAGE == 8
  OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Row> s;
  s.result_fixedpoint_multiplier = RowVec(va, cols);
  s.result_exponent = RowVec(vb, cols);
  s.result_offset_after_shift = p[2];
  run<std::int32_t, O>(B, V, std::make_tuple(cbias, s));
#elif VP_STAGE == 9
  run<std::uint8_t, O>(B, V, std::make_tuple(bias, u8));
#elif VP_STAGE == 10
  run<std::int8_t, O>(B, V, std::make_tuple(bias, OutputStageSaturatingCastToInt8()));
#elif VP_STAGE == 11
  run<std::int16_t, O>(B, V, std::make_tuple(bias, OutputStageSaturatingCastToInt16()));
#elif VP_STAGE == 12
  run<std::uint8_t, O>(B, V, std::make_tuple(bias, cl, OutputStageTruncatingCastToUint8()));
#elif VP_STAGE == 13
  run<std::int32_t, O>(B, V, std::make_tuple(cbias, cl));
#elif VP_STAGE == 14
  run<std::int32_t, O>(B, V, std::make_tuple(bias, cbias));
#elif VP_STAGE == 15
  OutputStageTanh t;
  t.real_zero_as_int32 = V[3];
  t.real_amplitude_as_int32 = V[4];
  run<std::int32_t, O>(B, V, std::make_tuple(bias, t));
#elif VP_STAGE == 16
  run<std::uint8_t, O>(B, V, std::make_tuple(cbias, f, cl, u8));
#elif VP_STAGE == 17
  run<std::int16_t, O>(B, V, std::make_tuple(cbias, e, cl, OutputStageSaturatingCastToInt16()));
#elif VP_STAGE == 18
  run<std::int32_t, O>(B, V, std::make_tuple());
#endif
}
VP_ENTRY(out_r) { go<MapOrder::RowMajor>(B, V); }
VP_ENTRY(out_c) { go<MapOrder::ColMajor>(B, V); }
