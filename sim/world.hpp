#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP
#include "sim.hpp"
#include <deque>
#include <memory>
namespace sim {
struct FiberBase {
  std::function<void()> fn;
  void* sp = nullptr;
  void* stack = nullptr;
  void* resumer_sp = nullptr;
  void* resumer_eh = nullptr;
  FiberBase* resumer = nullptr;
  void* eh_caught = nullptr;
  unsigned eh_uncaught = 0;
  bool finished = false;
  explicit FiberBase(std::function<void()> f);
  ~FiberBase();
  void resume();
  void suspend();
};
extern FiberBase* current_fiber;

struct Req;
struct Msg;
struct CommShared;
struct CommLocal {
  CommShared* sh = nullptr;
  int rank = -1;
  bool live = false;
  u64 coll_seq = 0;
};
struct Rank {
  int id = 0;
  std::unique_ptr<FiberBase> fiber;
  std::function<bool()> pred;
  std::string why;
  std::vector<char> image;
  u64 last_run = 0;
  u64 skew_us = 0;
  int probe_misses = 0;
  // MPI state
  bool inited = false, finalized = false;
  std::vector<CommLocal> comms;
  std::vector<Req*> reqs;       // handle -> request
  std::vector<u32> free_reqs;
  std::vector<std::pair<void*, int>> ops;  // user ops: fn, commute
  std::deque<Req*> posted;      // posted receives, in order
  std::deque<Msg*> unexpected;  // arrived, unmatched, in arrival order
};
struct Channel {
  int ctx, src, dst, tag;
  std::deque<Msg*> q;
  double weight = 1.0;
};
struct World {
  WorldCfg cfg;
  std::vector<std::unique_ptr<Rank>> ranks;
  int cur = -1;
  int loaded = -1;
  std::vector<char> host_image;
  u64 now_us = 5000000;
  bool failed = false, crashed = false;
  int fail_rank = -1;
  std::string what;
  // MPI state
  std::map<std::vector<int>, int> chan_index;
  std::vector<Channel> chans;
  std::vector<int> active;
  std::vector<std::shared_ptr<CommShared>> comms;
  u64 msg_seq = 0;
  void park();
};
extern World* world;
void block_until(std::function<bool()> pred, std::string const& why);
void mpi_world_init(World&, int nranks);
void mpi_rank_init(Rank&, int nranks);
void mpi_deliverable(World&, std::vector<int>& acts);
double mpi_link_weight(World&, int chan);
u64 mpi_chan_id(World&, int chan);
void mpi_deliver(World&, int chan);
void mpi_check_clean(World&);
}  // namespace sim
#endif
