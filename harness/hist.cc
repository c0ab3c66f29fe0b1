// Several GEMMs of different shapes, orders, result types and settings on one context.
#include "vp.h"
#include <tuple>
#include <vector>
#include "public/gemmlowp.h"
using namespace gemmlowp;
struct Pool {   // runs the tasks one after the other, each with the allocator of its worker
  Allocator alloc[8];
  void Execute(const std::vector<Task*>& tasks) {
    for (std::size_t k = 0; k < tasks.size(); k++) {
      tasks[k]->local_allocator = &alloc[k % 8];
      tasks[k]->Run();
    }
    for (std::size_t k = 0; k < tasks.size(); k++) delete tasks[k];
  }
  void LegacyExecuteAndDestroyTasks(const std::vector<Task*>& tasks) { Execute(tasks); }
  template <typename T>
  void Execute(int n, T* tasks) {
    for (int k = 0; k < n; k++) {
      tasks[k].local_allocator = &alloc[k % 8];
      tasks[k].Run();
    }
  }
};
struct Ctx : MultiThreadGemmContextBase {
  Pool pool;
  Pool* workers_pool() { return &pool; }
};
// V per call: order rows depth cols threads l1 l2 l2p;  B per call: lhs rhs result offsets
template <MapOrder L, MapOrder R, MapOrder O>
static void one(Ctx* ctx, vp_byte** B, const std::int64_t* V) {
  const int rows = V[1], depth = V[2], cols = V[3];
  MatrixMap<const std::uint8_t, L> lhs(B[0], rows, depth);
  MatrixMap<const std::uint8_t, R> rhs(B[1], depth, cols);
  MatrixMap<std::int32_t, O> res(reinterpret_cast<std::int32_t*>(B[2]), rows, cols);
  const std::int32_t* off = reinterpret_cast<const std::int32_t*>(B[3]);
  ctx->set_max_num_threads(V[4]);
  if (V[5]) ctx->set_l1_bytes_to_use(V[5]);
  if (V[6]) ctx->set_l2_bytes_to_use(V[6]);
  if (V[7]) ctx->set_l2_rhs_factor(V[7] / 100.0f);
  GemmWithOutputPipeline<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(ctx, lhs, rhs, &res, off[0], off[1], std::make_tuple());
}
VP_ENTRY(hist) {
  Ctx ctx;
  const int n = V[0];
  for (int k = 0; k < n; k++) {
    const std::int64_t* v = V + 1 + 8 * k;
    switch (v[0]) {
      case 0: one<MapOrder::RowMajor, MapOrder::ColMajor, MapOrder::RowMajor>(&ctx, B + 4 * k, v); break;
      case 1: one<MapOrder::ColMajor, MapOrder::RowMajor, MapOrder::ColMajor>(&ctx, B + 4 * k, v); break;
      case 2: one<MapOrder::RowMajor, MapOrder::ColMajor, MapOrder::ColMajor>(&ctx, B + 4 * k, v); break;
      default: one<MapOrder::ColMajor, MapOrder::ColMajor, MapOrder::RowMajor>(&ctx, B + 4 * k, v); break;
    }
  }
}
