// Multi-threaded GEMM with the caller's own workers pool (documented extension point of
// MultiThreadGemmContextBase): the tasks are run one after the other in a chosen order, each with its
// own allocator, between vp_log(1,task,block) and vp_log(2,task,block).
//   -DVP_PC=0 int offsets, 3 offset vectors;  -DVP_U8 uint8 results through bias + quantize-down + cast
#include "vp.h"
#include <cstring>
#include <tuple>
#include <vector>
#include "public/gemmlowp.h"
using namespace gemmlowp;
#ifndef VP_PC
#define VP_PC 0
#endif
struct Pool {
  int order, probe, calls;
  Allocator alloc[8];
  vp_byte* out;
  std::size_t out_bytes;
  Pool() : order(0), probe(0), calls(0), out(0), out_bytes(0) {}
  static int pick(int order, int k, int n) {
    switch (order) {
      case 0: return k;
      case 1: return n - 1 - k;
      default: return (k + 1) % n;
    }
  }
  void one(Task* t, int i) {
    t->local_allocator = &alloc[i % 8];
    if (!probe) {
      vp_log(1, i, calls);
      t->Run();
      vp_log(2, i, calls);
      return;
    }
    // which result bytes does the task write?  (native confirmation only)
    std::vector<vp_byte> keep(out, out + out_bytes);
    memset(out, 0xaa, out_bytes);
    t->Run();
    std::vector<vp_byte> first(out, out + out_bytes);
    memset(out, 0x55, out_bytes);
    t->Run();
    for (std::size_t k = 0; k < out_bytes; k++)
      if (first[k] != 0xaa || out[k] != 0x55) {
        vp_log(3 + i, calls, k);
        keep[k] = out[k];
      }
    memcpy(out, keep.data(), out_bytes);
  }
  void Execute(const std::vector<Task*>& tasks) {
    const int n = tasks.size();
    std::vector<int> idx;
    if (order < 3) {
      for (int k = 0; k < n; k++) idx.push_back(pick(order, k, n));
    } else {
      for (int k = 1; k < n; k += 2) idx.push_back(k);
      for (int k = 0; k < n; k += 2) idx.push_back(k);
    }
    for (int k = 0; k < n; k++) one(tasks[idx[k]], idx[k]);
    for (int k = 0; k < n; k++) delete tasks[k];
    calls++;
  }
  void LegacyExecuteAndDestroyTasks(const std::vector<Task*>& tasks) { Execute(tasks); }
  template <typename T>
  void Execute(int n, T* tasks) {
    for (int k = 0; k < n; k++) {
      const int i = order == 1 ? n - 1 - k : k;
      one(&tasks[i], i);
    }
    calls++;
  }
};
struct Ctx : MultiThreadGemmContextBase {
  Pool pool;
  Pool* workers_pool() { return &pool; }
};
#ifdef VP_U8
typedef std::uint8_t Out;
#else
typedef std::int32_t Out;
#endif
// V: rows depth cols ls rs os threads l1 l2 l2p order probe out_bytes shift
// B: lhs rhs result lhs_offsets rhs_offsets bias params
template <MapOrder L, MapOrder R, MapOrder O>
static void go(vp_byte** B, const std::int64_t* V) {
  const int rows = V[0], depth = V[1], cols = V[2];
  MatrixMap<const std::uint8_t, L> lhs(B[0], rows, depth, V[3]);
  MatrixMap<const std::uint8_t, R> rhs(B[1], depth, cols, V[4]);
  MatrixMap<Out, O> res(reinterpret_cast<Out*>(B[2]), rows, cols, V[5]);
  const std::int32_t* lo = reinterpret_cast<const std::int32_t*>(B[3]);
  const std::int32_t* ro = reinterpret_cast<const std::int32_t*>(B[4]);
  Ctx ctx;
  ctx.set_max_num_threads(V[6]);
  if (V[7]) ctx.set_l1_bytes_to_use(V[7]);
  if (V[8]) ctx.set_l2_bytes_to_use(V[8]);
  if (V[9]) ctx.set_l2_rhs_factor(V[9] / 100.0f);
  ctx.pool.order = V[10];
  ctx.pool.probe = V[11];
  ctx.pool.out = B[2];
  ctx.pool.out_bytes = V[12];
#ifdef VP_U8
  typedef VectorMap<const std::int32_t, VectorShape::Col> ColVec;
  OutputStageBiasAddition<ColVec> bias;
  bias.bias_vector = ColVec(reinterpret_cast<const std::int32_t*>(B[5]), rows);
  OutputStageQuantizeDownInt32ToUint8Scale q;
  const std::int32_t* p = reinterpret_cast<const std::int32_t*>(B[6]);
  q.result_offset = p[0];
  q.result_mult_int = p[1];
  q.result_shift = V[13];
  auto pipe = std::make_tuple(bias, q, OutputStageSaturatingCastToUint8());
#else
  auto pipe = std::make_tuple();
#endif
#if VP_PC
  VectorMap<const std::int32_t, VectorShape::Col> a(lo, rows);
  VectorMap<const std::int32_t, VectorShape::Row> b(ro, cols);
  GemmWithOutputPipelinePC<std::uint8_t, Out, DefaultL8R8BitDepthParams>(&ctx, lhs, rhs, &res, a, b, pipe);
#else
  GemmWithOutputPipeline<std::uint8_t, Out, DefaultL8R8BitDepthParams>(&ctx, lhs, rhs, &res, lo[0], ro[0], pipe);
#endif
}
#define RM MapOrder::RowMajor
#define CM MapOrder::ColMajor
#define E(n, l, r, o) \
  VP_ENTRY(n) { go<l, r, o>(B, V); }
E(gemm_rcr, RM, CM, RM) E(gemm_rcc, RM, CM, CM) E(gemm_crr, CM, RM, RM) E(gemm_ccc, CM, CM, CM)
E(gemm_rrr, RM, RM, RM) E(gemm_crc, CM, RM, CM)
