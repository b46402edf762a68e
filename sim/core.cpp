#include "sim.hpp"
#include "world.hpp"
#include <cxxabi.h>
#include <elf.h>
#include <link.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <exception>

namespace sim {
Chooser chooser;
bool thread_faults = false;
Stats stats;
std::function<void(std::string const&, std::string const&)> on_violate;
World* world = nullptr;

u64 mix(u64 a, u64 b) {
  u64 z = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
u64 hash_bytes(void const* p, std::size_t n, u64 h) {
  auto b = static_cast<unsigned char const*>(p);
  while (n >= 8) {
    u64 w;
    std::memcpy(&w, b, 8);
    h = mix(h, w);
    b += 8;
    n -= 8;
  }
  u64 w = n;
  for (std::size_t i = 0; i < n; ++i) w = w * 256 + b[i];
  return mix(h, w);
}
void event(u64 h) { stats.event_hash = mix(stats.event_hash, h); }

void violate(std::string const& kind, std::string const& detail) {
  if (on_violate) on_violate(kind, detail);
  std::fprintf(stderr, "violation %s: %s\n", kind.c_str(), detail.c_str());
  _exit(3);
}
void harness_error(std::string const& what) {
  std::fprintf(stderr, "HARNESS ERROR: %s\n", what.c_str());
  if (on_violate) on_violate("harness-error", what);
  _exit(4);
}

Policy draw_policy(Rng& r, bool faulty, int nranks) {
  Policy p;
  p.rank_w.assign(std::size_t(nranks), 1.0);
  if (!faulty) return p;
  p.fifo = false;
  p.mode = int(r.below(5));
  if (p.mode == 1)
    for (auto& w : p.rank_w) w = r.flip(0.4) ? 0.02 : 1.0;
  p.deliver_w = r.flip(0.3) ? 0.05 : (r.flip(0.3) ? 10.0 : 1.0);
  if (r.flip(0.5)) p.p_stall = r.flip(0.5) ? 0.001 : 0.01;
  auto knob = [&](double hi) { return r.flip(0.35) ? 0.0 : (r.flip(0.3) ? 1.0 : r.unit()) * hi; };
  p.p_rendezvous = knob(1.0);
  p.p_latewrite = knob(1.0);
  p.p_test_false = knob(0.7);
  p.p_coll_early = knob(1.0);
  p.p_reduce_perm = knob(1.0);
  p.p_clock_jump = r.flip(0.3) ? 0.01 : 0;
  return p;
}

// ---- writable globals of the program under test: one copy per rank ----
struct Range {
  char* p;
  std::size_t n;
};
// (leaked on purpose: filled by a constructor that may run before dynamic
// initialisation of this file)
static std::vector<Range>& image_ranges() {
  static auto v = new std::vector<Range>;
  return *v;
}
static std::vector<char>& pristine() {
  static auto v = new std::vector<char>;
  return *v;
}

static int find_image(struct dl_phdr_info* info, size_t, void*) {
  std::string name = info->dlpi_name ? info->dlpi_name : "";
  if (name.find("libosut") == std::string::npos) return 0;
  int fd = open(name.c_str(), O_RDONLY);
  if (fd < 0) return 0;
  struct stat st;
  fstat(fd, &st);
  auto base = static_cast<char*>(
      mmap(nullptr, std::size_t(st.st_size), PROT_READ, MAP_PRIVATE, fd, 0));
  auto eh = reinterpret_cast<Elf64_Ehdr*>(base);
  auto sh = reinterpret_cast<Elf64_Shdr*>(base + eh->e_shoff);
  auto strs = base + sh[eh->e_shstrndx].sh_offset;
  for (int i = 0; i < eh->e_shnum; ++i) {
    std::string sn = strs + sh[i].sh_name;
    if (sn == ".data" || sn == ".bss")
      image_ranges().push_back(
          {reinterpret_cast<char*>(info->dlpi_addr + sh[i].sh_addr),
              std::size_t(sh[i].sh_size)});
  }
  munmap(base, std::size_t(st.st_size));
  close(fd);
  return 1;
}
static void image_init() {
  static bool done = false;
  if (done) return;
  done = true;
  dl_iterate_phdr(find_image, nullptr);
  if (image_ranges().size() != 2) harness_error("the library's writable globals were not found");
  for (auto& r : image_ranges()) pristine().insert(pristine().end(), r.p, r.p + r.n);
}
static void image_save(std::vector<char>& to) {
  std::size_t o = 0;
  to.resize(pristine().size());
  for (auto& r : image_ranges()) {
    std::memcpy(to.data() + o, r.p, r.n);
    o += r.n;
  }
}
static void image_load(std::vector<char> const& from) {
  std::size_t o = 0;
  for (auto& r : image_ranges()) {
    std::memcpy(r.p, from.data() + o, r.n);
    o += r.n;
  }
}
__attribute__((constructor)) static void image_ctor() { image_init(); }

// ---- fibers ----
extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

struct EhGlobals {
  void* caught;
  unsigned int uncaught;
};
static constexpr std::size_t stack_bytes = 8u << 20;

FiberBase* current_fiber = nullptr;

static void fiber_entry() {
  FiberBase* f = current_fiber;
  f->fn();
  f->finished = true;
  // back to whoever runs fibers; never resumed
  void* dummy;
  *reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals()) = *reinterpret_cast<EhGlobals*>(f->resumer_eh);
  auto sp = f->resumer_sp;
  current_fiber = f->resumer;
  sim_switch(&dummy, sp);
  __builtin_trap();
}
static std::vector<void*> free_stacks;
FiberBase::FiberBase(std::function<void()> f) : fn(std::move(f)) {
  if (!free_stacks.empty()) {
    stack = free_stacks.back();
    free_stacks.pop_back();
  } else {
    stack = mmap(nullptr, stack_bytes, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    if (stack == MAP_FAILED) harness_error("mmap of a fiber stack failed");
    mprotect(stack, 4096, PROT_NONE);
  }
  auto top = reinterpret_cast<std::uintptr_t>(stack) + stack_bytes;
  top &= ~std::uintptr_t(15);
  auto p = reinterpret_cast<std::uintptr_t*>(top);
  *--p = 0;  // alignment: at entry rsp % 16 == 8
  *--p = reinterpret_cast<std::uintptr_t>(&fiber_entry);
  for (int i = 0; i < 6; ++i) *--p = 0;
  --p;
  u32 mxcsr = 0x1f80;
  std::uint16_t cw = 0x37f;
  std::memcpy(p, &mxcsr, 4);
  std::memcpy(reinterpret_cast<char*>(p) + 4, &cw, 2);
  sp = p;
}
FiberBase::~FiberBase() { free_stacks.push_back(stack); }
void FiberBase::resume() {
  auto eh = reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals());
  EhGlobals mine = *eh;
  resumer_eh = &mine;
  eh->caught = this->eh_caught;
  eh->uncaught = this->eh_uncaught;
  resumer = current_fiber;
  current_fiber = this;
  sim_switch(&resumer_sp, sp);
  *eh = mine;
}
void FiberBase::suspend() {
  auto eh = reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals());
  eh_caught = eh->caught;
  eh_uncaught = eh->uncaught;
  current_fiber = resumer;
  sim_switch(&sp, resumer_sp);
}

bool in_world() { return world && world->cur >= 0; }
int cur_rank() { return world ? world->cur : -1; }
int world_size() { return world ? int(world->ranks.size()) : 0; }

static void account(u64 us) {
  stats.sim_us += us;
  if (world) world->now_us += us;
}
u64 clock_us() {
  if (!world) return 1000000;
  u64 t = world->now_us;
  if (world->cur >= 0) t += world->ranks[std::size_t(world->cur)]->skew_us;
  return t;
}

static void run_rank(World& w, int r) {
  auto& rk = *w.ranks[std::size_t(r)];
  if (w.loaded != r) {
    image_save(w.loaded < 0 ? w.host_image : w.ranks[std::size_t(w.loaded)]->image);
    image_load(rk.image);
    w.loaded = r;
  }
  w.cur = r;
  ++stats.switches;
  rk.fiber->resume();
  w.cur = -1;
}

void World::park() {
  ranks[std::size_t(cur)]->fiber->suspend();
  // resumed: scheduler set cur again
}
void yield_point() {
  if (!in_world()) return;
  auto& rk = *world->ranks[std::size_t(world->cur)];
  rk.pred = nullptr;
  world->park();
}
void block_until(std::function<bool()> pred, std::string const& why) {
  if (pred()) return;
  auto& rk = *world->ranks[std::size_t(world->cur)];
  rk.pred = std::move(pred);
  rk.why = why;
  world->park();
}
void fail_world(std::string const& what) {
  if (!world->failed) {
    world->failed = true;
    world->fail_rank = world->cur;
    world->what = what;
  }
  world->park();
  __builtin_trap();
}
void crash_world() {
  world->crashed = true;
  world->park();
  __builtin_trap();
}

static std::string blocked_report(World& w) {
  std::string s;
  for (auto& rk : w.ranks)
    if (!rk->fiber->finished)
      s += " [rank " + std::to_string(rk->id) + ": " + (rk->pred ? rk->why : "runnable") + "]";
  return s;
}

WorldResult run_world(WorldCfg const& cfg, std::function<void(int)> body) {
  image_init();
  World w;
  WorldResult out;
  world = &w;
  ++stats.worlds;
  image_save(w.host_image);
  w.cfg = cfg;
  auto& pol = w.cfg.policy;
  chooser.benign = pol.fifo && !thread_faults;
  pol.rank_w.resize(std::size_t(cfg.nranks), 1.0);
  mpi_world_init(w, cfg.nranks);
  for (int r = 0; r < cfg.nranks; ++r) {
    auto rk = std::make_unique<Rank>();
    rk->id = r;
    rk->image = pristine();
    rk->last_run = 0;
    mpi_rank_init(*rk, cfg.nranks);
    w.ranks.push_back(std::move(rk));
  }
  for (int r = 0; r < cfg.nranks; ++r) {
    auto rk = w.ranks[std::size_t(r)].get();
    rk->fiber = std::make_unique<FiberBase>([&w, rk, &body]() {
      try {
        body(rk->id);
      } catch (std::exception const& e) {
        if (!w.failed) {
          w.failed = true;
          w.fail_rank = rk->id;
          w.what = e.what();
        }
      } catch (...) {
        if (!w.failed) {
          w.failed = true;
          w.fail_rank = rk->id;
          w.what = "unknown exception";
        }
      }
    });
  }
  int last = cfg.nranks - 1;
  std::vector<int> acts;  // >=0 channel index, <0: rank -(r+1)
  std::vector<double> wts;
  u64 steps = 0;
  int burst_rank = -1;
  std::vector<u64> stall_until(std::size_t(cfg.nranks), 0);
  while (true) {
    if (w.failed || w.crashed) break;
    acts.clear();
    mpi_deliverable(w, acts);  // oldest first
    std::size_t nd = acts.size();
    int alive = 0;
    for (int k = 1; k <= cfg.nranks; ++k) {
      int r = (last + k) % cfg.nranks;
      auto& rk = *w.ranks[std::size_t(r)];
      if (rk.fiber->finished) continue;
      ++alive;
      if (!rk.pred || rk.pred()) acts.push_back(-(r + 1));
    }
    if (!alive) break;
    if (acts.empty())
      violate("deadlock", "no rank can proceed and no message is in flight:" + blocked_report(w));
    if (++steps > cfg.step_budget)
      violate("no-progress", "ranks still not finished after " + std::to_string(steps) +
                                 " scheduling steps:" + blocked_report(w));
    u32 want = 0, n = u32(acts.size());
    if (!pol.fifo && n > 1 && !chooser.replaying) {
      auto& rng = chooser.rng;
      if (pol.p_stall > 0 && rng.flip(pol.p_stall)) {
        stall_until[rng.below(u64(cfg.nranks))] = steps + 20 + rng.below(400);
        fault_fired("rank_stall");
      }
      wts.assign(n, 1.0);
      for (u32 i = 0; i < n; ++i) {
        if (i < nd) {
          wts[i] = pol.deliver_w;
          if (pol.mode == 3) wts[i] = pol.deliver_w * (i + 1 == nd ? 20.0 : 0.05);
          if (pol.mode == 4) wts[i] = pol.deliver_w * mpi_link_weight(w, acts[i]);
        } else {
          int r = -acts[i] - 1;
          wts[i] = pol.rank_w[std::size_t(r)];
          if (pol.mode == 2 && r == burst_rank) wts[i] = 30.0;
          if (stall_until[std::size_t(r)] > steps) wts[i] *= 1e-6;
        }
      }
      double tot = 0;
      for (double x : wts) tot += x;
      double x = rng.unit() * tot;
      want = n - 1;
      for (u32 i = 0; i < n; ++i) {
        if (x < wts[i]) {
          want = i;
          break;
        }
        x -= wts[i];
      }
    }
    if (!pol.fifo && chooser.flip(pol.p_clock_jump)) {
      auto r = chooser.pick(u32(cfg.nranks));
      w.ranks[r]->skew_us += 1000000ull << chooser.pick(16);
      fault_fired("clock_jump");
    }
    u32 c = chooser.commit(n, want);
    int a = acts[c];
    account(a >= 0 ? 3 : 1);
    if (a >= 0) {
      stats.sched_hash = mix(stats.sched_hash, mpi_chan_id(w, a));
      if (c > 0 || nd > 1) {
        if (c > 0) fault_fired("msg_reordered");
      }
      mpi_deliver(w, a);
    } else {
      int r = -a - 1;
      if (nd > 0) fault_fired("msg_delayed");
      stats.sched_hash = mix(stats.sched_hash, u64(r) + 1000);
      last = r;
      burst_rank = r;
      auto& rk = *w.ranks[std::size_t(r)];
      rk.pred = nullptr;
      run_rank(w, r);
    }
  }
  stats.steps += steps;
  out.failed = w.failed;
  out.crashed = w.crashed;
  out.fail_rank = w.fail_rank;
  out.what = w.what;
  if (!w.failed && !w.crashed && cfg.check_leaks) mpi_check_clean(w);
  bool abandoned = false;
  for (auto& rk : w.ranks)
    if (!rk->fiber->finished) {
      abandoned = true;
      // never destroy a live fiber's stack contents; leak it
      rk->fiber.release();
    }
  (void)abandoned;
  chooser.benign = false;
  image_load(w.host_image);
  world = nullptr;
  return out;
}
}  // namespace sim
