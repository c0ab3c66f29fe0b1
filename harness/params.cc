// Integer helpers, cache-blocking parameters and the thread-count choice, on arbitrary arguments.
#include "vp.h"
#include "public/gemmlowp.h"
using namespace gemmlowp;
typedef DefaultKernel<DefaultL8R8BitDepthParams>::Format F;
// generic format of the tests' reference kernels: sizes that are not powers of two
typedef KernelFormat<KernelSideFormat<CellFormat<3, 4>, 2>, KernelSideFormat<CellFormat<5, 4>, 3> > G;
template <typename Fmt>
static void block(vp_byte** B, const std::int64_t* V, float factor) {
  BlockParams p;
  p.Init<Fmt>(V[0], V[1], V[2], V[3], V[4], V[5], factor);
  std::int32_t* o = reinterpret_cast<std::int32_t*>(B[0]);
  o[0] = p.l2_rows;
  o[1] = p.l2_cols;
  o[2] = p.l2_depth;
  o[3] = p.l1_rows;
  o[4] = p.l1_cols;
  o[5] = p.l1_depth;
  o[6] = Fmt::kRows;
  o[7] = Fmt::kCols;
  o[8] = Fmt::kDepth;
  o[9] = kRegisterSize;
}
// V: rows cols depth threads l1 l2
VP_ENTRY(block_100) { block<F>(B, V, 1.0f); }
VP_ENTRY(block_75) { block<F>(B, V, 0.75f); }
VP_ENTRY(block_50) { block<F>(B, V, 0.5f); }
VP_ENTRY(block_25) { block<F>(B, V, 0.25f); }
VP_ENTRY(gblock_100) { block<G>(B, V, 1.0f); }
VP_ENTRY(gblock_50) { block<G>(B, V, 0.5f); }
// V: max rows cols depth
VP_ENTRY(threads) { *reinterpret_cast<std::int32_t*>(B[0]) = HowManyThreads<F::kRows>(V[0], V[1], V[2], V[3]); }
VP_ENTRY(threads32) { *reinterpret_cast<std::int32_t*>(B[0]) = HowManyThreads<32>(V[0], V[1], V[2], V[3]); }
template <unsigned M>
static void rnd(vp_byte** B, const std::int64_t* V) {
  std::int32_t* o = reinterpret_cast<std::int32_t*>(B[0]);
  o[0] = RoundDown<M>(static_cast<int>(V[0]));
  o[1] = RoundUp<M>(static_cast<int>(V[0]));
  std::uint64_t* q = reinterpret_cast<std::uint64_t*>(B[0] + 8);
  q[0] = RoundDown<M>(static_cast<std::size_t>(V[1]));
  q[1] = RoundUp<M>(static_cast<std::size_t>(V[1]));
}
#define R(m) \
  VP_ENTRY(round_##m) { rnd<m>(B, V); }
R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(12) R(16) R(24) R(32) R(64) R(100)
VP_ENTRY(ceilq) { *reinterpret_cast<std::int32_t*>(B[0]) = CeilQuotient<int>(V[0], V[1]); }
VP_ENTRY(pot32) { *reinterpret_cast<std::uint32_t*>(B[0]) = RoundUpToPowerOfTwo<std::uint32_t>(V[0]); }
VP_ENTRY(pots32) { *reinterpret_cast<std::int32_t*>(B[0]) = RoundUpToPowerOfTwo<std::int32_t>(V[0]); }
VP_ENTRY(potsz) { *reinterpret_cast<std::uint64_t*>(B[0]) = RoundUpToPowerOfTwo<std::size_t>(V[0]); }
