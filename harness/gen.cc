// GEMM with the portable kernel on kernel formats other than the default ones: every cell order and odd cell sizes.
#include "vp.h"
#include <tuple>
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
using namespace gemmlowp;
#ifndef VP_FMT
#define VP_FMT 0
#endif
#define DM CellOrder::DepthMajor
#define WM CellOrder::WidthMajor
#define DG CellOrder::Diagonal
#define SIDE(w, d, o, n) KernelSideFormat<CellFormat<w, d, o>, n>
#if VP_FMT == 0
typedef KernelFormat<SIDE(1, 1, DM, 1), SIDE(1, 1, DM, 1)> F;
#elif VP_FMT == 1
typedef KernelFormat<SIDE(4, 2, DM, 1), SIDE(4, 2, DM, 2)> F;
#elif VP_FMT == 2
typedef KernelFormat<SIDE(4, 2, DM, 4), SIDE(4, 2, DM, 5)> F;
#elif VP_FMT == 3
typedef KernelFormat<SIDE(3, 4, DM, 2), SIDE(5, 4, DM, 3)> F;
#elif VP_FMT == 4
typedef KernelFormat<SIDE(3, 4, WM, 2), SIDE(5, 4, WM, 3)> F;
#elif VP_FMT == 5
typedef KernelFormat<SIDE(5, 2, WM, 3), SIDE(4, 2, DM, 2)> F;
#elif VP_FMT == 6
typedef KernelFormat<SIDE(5, 2, DM, 3), SIDE(4, 2, WM, 2)> F;
#elif VP_FMT == 7
typedef KernelFormat<SIDE(8, 8, DG, 2), SIDE(3, 8, WM, 1)> F;
#elif VP_FMT == 8
typedef KernelFormat<SIDE(1, 4, DM, 1), SIDE(4, 4, DG, 1)> F;
#elif VP_FMT == 9
typedef KernelFormat<SIDE(4, 2, WM, 2), SIDE(4, 2, WM, 3)> F;
#else
typedef KernelFormat<SIDE(8, 2, WM, 2), SIDE(4, 2, WM, 1)> F;
#endif
// V: rows depth cols lhs_stride rhs_stride res_stride threads l1 l2 l2rhs_percent
// B: lhs rhs result offsets{lhs,rhs}
template <MapOrder L, MapOrder R, MapOrder O>
static void go(vp_byte** B, const std::int64_t* V) {
  const int rows = V[0], depth = V[1], cols = V[2];
  MatrixMap<const std::uint8_t, L> lhs(B[0], rows, depth, V[3]);
  MatrixMap<const std::uint8_t, R> rhs(B[1], depth, cols, V[4]);
  MatrixMap<std::int32_t, O> res(reinterpret_cast<std::int32_t*>(B[2]), rows, cols, V[5]);
  const std::int32_t* off = reinterpret_cast<const std::int32_t*>(B[3]);
  SingleThreadGemmContext ctx;
  if (V[7]) ctx.set_l1_bytes_to_use(V[7]);
  if (V[8]) ctx.set_l2_bytes_to_use(V[8]);
  if (V[9]) ctx.set_l2_rhs_factor(V[9] / 100.0f);
  typedef VectorDup<const std::int32_t, VectorShape::Col> LO;
  typedef VectorDup<const std::int32_t, VectorShape::Row> RO;
  SingleThreadGemm<F, std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(&ctx, ReferenceKernel<F>(), lhs, rhs, &res, LO(off[0], rows), RO(off[1], cols),
                                                                              std::make_tuple());
}
#define RM MapOrder::RowMajor
#define CM MapOrder::ColMajor
#define E(n, l, r, o) \
  VP_ENTRY(n) { go<l, r, o>(B, V); }
E(gemm_rcr, RM, CM, RM) E(gemm_rcc, RM, CM, CM) E(gemm_rrr, RM, RM, RM) E(gemm_rrc, RM, RM, CM)
E(gemm_crr, CM, RM, RM) E(gemm_crc, CM, RM, CM) E(gemm_ccr, CM, CM, RM) E(gemm_ccc, CM, CM, CM)

// offsets of two coefficients of a cell; V: w d w2 d2
#define CELL(n, w, d, o)                                            \
  VP_ENTRY(cell_##n) {                                              \
    std::int32_t* out = reinterpret_cast<std::int32_t*>(B[0]);      \
    out[0] = OffsetIntoCell<CellFormat<w, d, o>>(V[0], V[1]);       \
    out[1] = OffsetIntoCell<CellFormat<w, d, o>>(V[2], V[3]);       \
  }
CELL(0, 3, 3, DG) CELL(1, 5, 5, DG) CELL(2, 8, 8, DG) CELL(3, 1, 1, DG) CELL(4, 6, 6, DG) CELL(5, 4, 4, DG) CELL(6, 7, 7, DG)
CELL(7, 3, 5, DM) CELL(8, 5, 3, WM) CELL(9, 4, 2, DM) CELL(10, 4, 16, WM) CELL(11, 1, 16, DM) CELL(12, 16, 1, WM)
