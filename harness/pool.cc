// The library's own worker pool: rounds of tasks on one pool, then its destruction.
#include "vp.h"
#include <algorithm>
#include <vector>
#include <pthread.h>
#include "public/gemmlowp.h"
using namespace gemmlowp;
extern "C" void vp_fail(int what, int round, int task);
// what: 1 a task has not run when Execute returns; 2 a task ran more than once; 3 no allocator
struct Job : Task {
  int* ran;
  Job() : ran(nullptr) {}
  void Run() override {
    if (!local_allocator) vp_fail(3, 0, 0);
    // uses the allocator it was given: no other task may use it at the same time
    *reinterpret_cast<volatile char*>(local_allocator) = 0;
    *ran = *ran + 1;
  }
};
// V: number of rounds, then per round: tasks, kind (0: array, 1: vector of pointers, destroyed by the pool, 2: the
// same array of tasks as in the rounds before)
static int ran[4][4];
VP_ENTRY(pool) {
  const int rounds = V[0];
  {
    WorkersPool p;
    Job again[4];
    for (int r = 0; r < rounds; r++) {
      const int n = V[1 + 2 * r];
      if (V[2 + 2 * r] == 0) {
        Job jobs[4];
        for (int k = 0; k < n; k++) jobs[k].ran = &ran[r][k];
        p.Execute(n, jobs);
      } else if (V[2 + 2 * r] == 2) {
        for (int k = 0; k < n; k++) again[k].ran = &ran[r][k];
        p.Execute(n, again);
      } else {
        std::vector<Task*> jobs;
        jobs.reserve(4);
        for (int k = 0; k < n; k++) {
          Job* j = new Job;
          j->ran = &ran[r][k];
          jobs.push_back(j);
        }
        p.LegacyExecuteAndDestroyTasks(jobs);
      }
      for (int k = 0; k < n; k++)
        if (ran[r][k] != 1) vp_fail(ran[r][k] == 0 ? 1 : 2, r, k);
    }
  }
  for (int r = 0; r < rounds; r++)
    for (int k = 0; k < V[1 + 2 * r]; k++)
      if (ran[r][k] != 1) vp_fail(2, r, k);
}
