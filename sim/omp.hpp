// The thread seam: OpenMP's runtime calls and every memory access of the code
// under test (through the instrumentation interface) enter the simulator.
#ifndef SIM_OMP_HPP
#define SIM_OMP_HPP
#include "sim.hpp"
namespace sim {
struct OmpCfg {
  int threads = 1;         // OMP_NUM_THREADS
  bool faulty = false;     // take scheduling decisions; otherwise threads run one after another
  double p_region = 0;     // how many of the parallel regions are interleaved
  int mean = 8;            // mean number of accesses between preemptions
  double p_conflict = 0;   // preempt before touching what another thread has touched
  double p_smaller = 0;    // a team has fewer threads than asked for
  double p_task_now = 0;   // a task is executed when it is created
};
extern OmpCfg omp;
struct OmpStats {
  u64 regions = 0, teams = 0, preemptions = 0, conflicts = 0, tasks = 0, accesses = 0;
};
extern OmpStats ompst;
void omp_reset(OmpCfg const& c);
OmpCfg draw_omp(Rng& r, int threads);
}  // namespace sim
#endif
