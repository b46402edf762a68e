// Deterministic simulator core: one seed decides every choice; ranks of the
// program under test are fibers of one thread; the message layer, the clock,
// the allocator and the file layer are owned by the simulator.
#ifndef SIM_HPP
#define SIM_HPP
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim {
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {  // splitmix64
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n <= 1 ? 0 : next() % n; }
  i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool flip(double p) { return unit() < p; }
  template <class V>
  auto const& of(V const& v) { return v[below(v.size())]; }
};

u64 mix(u64 a, u64 b);
u64 hash_bytes(void const* p, std::size_t n, u64 seed = 0xcbf29ce484222325ull);
inline u64 hash_str(std::string const& s) { return hash_bytes(s.data(), s.size()); }

// Every nondeterministic decision of a run goes through the chooser.
// Decision value 0 is always the benign default (deliver the oldest message,
// run the next rank in rotation, inject no fault).
struct Chooser {
  bool replaying = false;
  bool benign = false;  // fault-free world: every decision is the default, none is logged
  Rng rng{1};
  std::unordered_map<u32, u32> sparse;  // replay: decision index -> value
  std::vector<u32> log;                 // the first values taken
  static constexpr u32 log_max = 4000000;  // longer runs are replayed from their seed
  u32 taken = 0;
  u64 nonzero = 0;
  u32 commit(u32 n, u32 want) {  // record `want` (random mode) or replay
    if (n <= 1 || benign) return 0;
    u32 idx = taken++, v;
    if (replaying) {
      auto it = sparse.find(idx);
      v = it == sparse.end() ? 0 : it->second % n;
    } else {
      v = want;
    }
    if (log.size() < log_max) log.push_back(v);
    if (v) ++nonzero;
    return v;
  }
  u32 pick(u32 n) { return commit(n, replaying || benign ? 0 : u32(rng.below(n))); }
  bool flip(double p) { return commit(2, replaying || benign ? 0 : u32(rng.flip(p))) != 0; }
};
extern Chooser chooser;
extern bool thread_faults;  // the thread seam takes decisions too

// Per-run swarm configuration of schedule and fault intensities. Drawn from
// the seed; it only biases decisions, so a replay does not need it, except for
// the fields under "shape", which are carried in the program.
struct Policy {
  // schedule
  bool fifo = true;          // all decisions default
  int mode = 0;              // 0 uniform, 1 slow ranks, 2 bursts, 3 lifo, 4 slow links
  std::vector<double> rank_w;
  double deliver_w = 1.0;
  double p_stall = 0;        // start a stall of one rank
  // MPI progress freedom
  double p_rendezvous = 0;   // a standard send completes only when matched
  double p_latewrite = 0;    // receive buffer is filled only at completion
  double p_test_false = 0;   // Test/Testall/Iprobe spuriously report "not yet"
  double p_coll_early = 0;   // a collective returns as soon as MPI allows
  double p_reduce_perm = 0;  // reductions combine in another order
  // clock
  double p_clock_jump = 0;
};
Policy draw_policy(Rng& r, bool faulty, int nranks);

struct Stats {
  u64 steps = 0, switches = 0, msgs = 0, bytes = 0, colls = 0, worlds = 0;
  u64 sim_us = 0;
  u64 sched_hash = 0x1234567;
  u64 event_hash = 0x7654321;
  std::map<std::string, u64> faults;  // actually fired
  std::map<std::string, u64> probes;  // rare conditions reached
};
extern Stats stats;
inline void fault_fired(char const* k) { ++stats.faults[k]; }
inline void probe(char const* k) { ++stats.probes[k]; }
void event(u64 h);  // fold an observation into the run's event hash

// A violation ends the run. `kind` is the stable class used for minimisation.
[[noreturn]] void violate(std::string const& kind, std::string const& detail);
extern std::function<void(std::string const&, std::string const&)> on_violate;
// the harness itself is broken / budget exceeded: not a verdict on the code
[[noreturn]] void harness_error(std::string const& what);

struct WorldResult {
  bool failed = false;        // a rank ended with an Omega_h exception
  bool crashed = false;       // the injected crash point was reached
  int fail_rank = -1;
  std::string what;
};
struct WorldCfg {
  int nranks = 1;
  Policy policy;
  u64 step_budget = 30u * 1000 * 1000;
  bool pool = false;
  bool time = false;
  bool check_leaks = true;
};
// Run `body(rank)` on nranks simulated ranks to completion.
WorldResult run_world(WorldCfg const& cfg, std::function<void(int)> body);

bool in_world();
int cur_rank();       // simulated rank executing, -1 outside
int world_size();
[[noreturn]] void fail_world(std::string const& what);  // a rank ends with an error: the job is over
[[noreturn]] void crash_world();  // stop all ranks now (process crash)
void yield_point();               // extra scheduling point

// allocator seam
struct MemCfg {
  int poison = 0;  // 0 none, 1 zeros, 2 0xff, 3 random
  u64 seed = 1;
  i64 fail_at = -1;   // fail the n-th allocation of the array allocator
  int fail_rank = 0;
  int fail_count = 1;
  std::size_t fail_above = 0;
  bool track = false;  // guards after each block, bytes per rank
};
extern MemCfg mem;
extern u64 mem_allocs[64];
void mem_reset(MemCfg const& m);
i64 mem_live_blocks();
extern i64 mem_live_bytes[64], mem_peak_bytes[64];
void mem_check_guards();

// file seam; applies to paths below the scratch root only
struct FsCfg {
  double p_short_write = 0, p_short_read = 0, p_eintr = 0;
  i64 fail_write_after = -1;  // bytes until ENOSPC
  i64 eio_write_at = -1, eio_read_at = -1;  // n-th write / read call fails
  i64 fail_open_at = -1, fail_wopen_at = -1, fail_mkdir_at = -1;
  i64 fail_close_at = -1;
  i64 crash_at = -1;          // crash the job at the n-th mutating call
  bool crash_torn = false;    // ... after a partial write
};
struct FsStats {
  u64 opens = 0, wopens = 0, writes = 0, reads = 0, mutations = 0, bytes_written = 0;
  u64 errors_injected = 0;
};
extern FsCfg fs;
extern FsStats fsst;
void fs_reset(FsCfg const& c);
std::string const& scratch_root();
void set_scratch(std::string const& dir);  // an existing directory the run may write in
void remove_tree(std::string const& dir);  // only below an omsim.* directory
u64 clock_us();
}  // namespace sim
#endif
