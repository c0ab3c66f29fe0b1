// Matrix and vector views on arbitrary sizes, strides, positions: addresses only, nothing is dereferenced.
#include "vp.h"
#include "public/map.h"
using namespace gemmlowp;
typedef std::uintptr_t U;
template <typename S, MapOrder O>
static void mat(vp_byte** B, const std::int64_t* V) {
  // V: rows cols stride  i j   r0 c0 br bc  r1 c1 cr cc  k l
  S* d = reinterpret_cast<S*>(static_cast<U>(1) << 28);
  std::int64_t* o = reinterpret_cast<std::int64_t*>(B[0]);
  const U b = reinterpret_cast<U>(d);
  MatrixMap<S, O> m(d, V[0], V[1], V[2]);
  MatrixMap<S, O> p(d, V[0], V[1]);
  MatrixMap<S, O> c(m);
  MatrixMap<S, O> s = m.block(V[5], V[6], V[7], V[8]);
  MatrixMap<S, O> t = s.block(V[9], V[10], V[11], V[12]);
  o[0] = reinterpret_cast<U>(m.data(V[3], V[4])) - b;
  o[1] = reinterpret_cast<U>(&c(V[3], V[4])) - b;
  o[2] = reinterpret_cast<U>(&p(V[3], V[4])) - b;
  o[3] = reinterpret_cast<U>(s.data()) - b;
  o[4] = s.rows();
  o[5] = s.cols();
  o[6] = s.stride();
  o[7] = reinterpret_cast<U>(&t(V[13], V[14])) - b;
  o[8] = t.rows();
  o[9] = t.cols();
  o[10] = m.rows();
  o[11] = m.cols();
  o[12] = m.stride();
  o[13] = m.rows_stride();
  o[14] = m.cols_stride();
  o[15] = p.stride();
}
VP_ENTRY(mat_u8_r) { mat<std::uint8_t, MapOrder::RowMajor>(B, V); }
VP_ENTRY(mat_u8_c) { mat<std::uint8_t, MapOrder::ColMajor>(B, V); }
VP_ENTRY(mat_s16_r) { mat<const std::int16_t, MapOrder::RowMajor>(B, V); }
VP_ENTRY(mat_s16_c) { mat<const std::int16_t, MapOrder::ColMajor>(B, V); }
VP_ENTRY(mat_s32_r) { mat<std::int32_t, MapOrder::RowMajor>(B, V); }
VP_ENTRY(mat_s32_c) { mat<std::int32_t, MapOrder::ColMajor>(B, V); }
template <typename S, VectorShape H>
static void vec(vp_byte** B, const std::int64_t* V) {
  // V: size i  s0 len  s1 len1 k
  S* d = reinterpret_cast<S*>(static_cast<U>(1) << 28);
  std::int64_t* o = reinterpret_cast<std::int64_t*>(B[0]);
  const U b = reinterpret_cast<U>(d);
  VectorMap<S, H> m(d, V[0]);
  VectorMap<S, H> s = m.block(V[2], V[3]);
  VectorMap<S, H> t;
  t = s.block(V[4], V[5]);
  o[0] = reinterpret_cast<U>(&m(V[1])) - b;
  o[1] = reinterpret_cast<U>(&t(V[6])) - b;
  o[2] = m.size();
  o[3] = s.size();
  o[4] = t.size();
}
VP_ENTRY(vec_col) { vec<const std::int32_t, VectorShape::Col>(B, V); }
VP_ENTRY(vec_row) { vec<std::uint8_t, VectorShape::Row>(B, V); }
// V: value size i s0 len k
template <VectorShape H>
static void dup(vp_byte** B, const std::int64_t* V) {
  std::int64_t* o = reinterpret_cast<std::int64_t*>(B[0]);
  VectorDup<const std::int32_t, H> m(static_cast<std::int32_t>(V[0]), V[1]);
  VectorDup<const std::int32_t, H> s = m.block(V[3], V[4]);
  VectorDup<const std::int32_t, H> c(s);
  o[0] = m(V[2]);
  o[1] = c(V[5]);
  o[2] = m.size();
  o[3] = c.size();
}
VP_ENTRY(dup_col) { dup<VectorShape::Col>(B, V); }
VP_ENTRY(dup_row) { dup<VectorShape::Row>(B, V); }
