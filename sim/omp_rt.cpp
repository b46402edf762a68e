// A simulated OpenMP runtime: the threads and tasks of a team are fibers of
// their rank's fiber; a seeded scheduler switches between them at memory
// accesses, atomics, barriers and task points.
#include "omp.hpp"
#include <unordered_map>
#include <cmath>
#include <malloc.h>
#include <cstdlib>
#include <exception>
#include <new>
#include <memory>
#include "world.hpp"

namespace sim {
OmpCfg omp;
OmpStats ompst;

struct Strand {
  std::unique_ptr<FiberBase> fiber;
  int num = 0;              // omp_get_thread_num()
  int id = 0;               // in the team
  Strand* parent = nullptr;  // of a task
  int kids = 0;             // unfinished child tasks
  bool task = false, started = false, done = false;
  int wait = 0;             // 0 no, 1 barrier, 2 taskwait, 3 atomic lock
  std::vector<char> arg;
};
struct Team {
  int n = 1;
  std::vector<std::unique_ptr<Strand>> strands;
  int arrived = 0;
  Strand* lock = nullptr;
  std::exception_ptr error;
  bool mixed = false;  // this region is interleaved
  int alive = 0;
};
static Team* team = nullptr;
static Strand* self = nullptr;
static i64 quantum = 0;
static u64 decisions = 0;
static constexpr u64 max_decisions = 400000;
static constexpr i64 forever = i64(1) << 60;
static constexpr std::size_t max_strands = 1000;
static bool busy = false;  // the simulator's own tables are being changed
struct Touch {
  u32 mask = 0, wmask = 0;
  void* pc = nullptr;
};
static std::unordered_map<u64, Touch> touches;  // of this region
static std::unordered_map<void*, int> racy;     // places in the code seen to touch what another thread touches

void omp_reset(OmpCfg const& c) {
  omp = c;
  team = nullptr;
  self = nullptr;
  decisions = 0;
  touches.clear();
  racy.clear();
  thread_faults = c.faulty;
}
OmpCfg draw_omp(Rng& r, int threads) {
  OmpCfg c;
  c.threads = threads;
  c.faulty = true;
  c.p_region = r.flip(0.4) ? 1.0 : r.flip(0.5) ? 0.3 : 0.05;
  static int const means[] = {1, 2, 4, 8, 20, 60, 300};
  c.mean = means[r.below(7)];
  c.p_conflict = r.flip(0.5) ? 0 : r.flip(0.5) ? 0.5 : 0.05;
  c.p_smaller = r.flip(0.5) ? 0 : 0.3;
  c.p_task_now = r.flip(0.5) ? 0 : 0.3;
  return c;
}

static bool may_decide() { return omp.faulty && team && team->mixed && decisions < max_decisions; }

static bool ready(Strand& s) {
  if (s.done) return false;
  switch (s.wait) {
    case 1: return false;  // released by the last to arrive
    case 2: return s.kids == 0;
    case 3: return team->lock == nullptr;
  }
  return true;
}
// run the strands of the team until all have finished
static void drive() {
  Team& t = *team;
  std::vector<Strand*> r;
  Strand* last = nullptr;
  while (t.alive > 0 && !t.error) {
    r.clear();
    int active = 0;  // threads occupied by a strand
    for (auto& s : t.strands)
      if (s->started && !s->done && s->wait != 1 && s->wait != 2) ++active;
    if (last && ready(*last)) r.push_back(last);
    for (auto& s : t.strands) {
      if (s.get() == last || !ready(*s)) continue;
      // a task needs a free thread, and so does one that was waiting for its children
      if (((s->task && !s->started) || s->wait == 2) && active >= t.n) continue;
      r.push_back(s.get());
    }
    if (r.empty()) violate("deadlock", "no thread of a parallel region can proceed");
    u32 c = 0;
    quantum = forever;
    if (may_decide()) {
      ++decisions;
      c = chooser.pick(u32(r.size()));
      ++decisions;
      // how long it runs: 0 is until it waits or ends
      u32 want = 0;
      if (!chooser.replaying && !chooser.benign) {
        double u = chooser.rng.unit();
        want = chooser.rng.flip(0.1) ? 0 : 1 + u32(-std::log1p(-u) * omp.mean);
        if (want > 100000) want = 0;
      }
      u32 q = chooser.commit(100001, want);
      if (q) quantum = i64(q);
    }
    Strand* s = r[c];
    stats.sched_hash = mix(stats.sched_hash, u64(s->id) + 5000);
    if (s->wait == 3) t.lock = s;
    s->wait = 0;
    s->started = true;
    last = s;
    self = s;
    s->fiber->resume();
    self = nullptr;
    if (s->done) {
      --t.alive;
      if (s->parent) --s->parent->kids;
      s->fiber.reset();
      if (s->task) {  // finished tasks are forgotten unless something still points at them
        last = nullptr;
        if (s->kids == 0)
          for (std::size_t i = 0; i < t.strands.size(); ++i)
            if (t.strands[i].get() == s) {
              t.strands.erase(t.strands.begin() + long(i));
              break;
            }
      }
    }
  }
}
static void leave() { self->fiber->suspend(); }
static void preempt() {
  ++ompst.preemptions;
  fault_fired("thread_preempted");
  leave();
}
static Strand* spawn(int num, void (*fn)(void*), void* data, bool task) {
  Team& t = *team;
  if (t.strands.size() > max_strands) violate("no-progress", "a parallel region has more than " + std::to_string(max_strands) + " unfinished tasks");
  auto s = std::make_unique<Strand>();
  auto p = s.get();
  p->num = num;
  static int ids = 0;
  p->id = task ? 1000 + (ids++ & 1023) : num;
  p->task = task;
  p->fiber = std::make_unique<FiberBase>([p, fn, data, &t]() {
    try {
      fn(data);
    } catch (...) {
      if (!t.error) t.error = std::current_exception();
    }
    p->done = true;
  });
  t.strands.push_back(std::move(s));
  ++t.alive;
  return p;
}
static void parallel(void (*fn)(void*), void* data, unsigned asked) {
  ++ompst.regions;
  if (!in_world() || team || omp.threads <= 1 || asked == 1) {
    // a nested region gets a team of one
    Team* outer = team;
    Strand* me = self;
    team = nullptr;
    self = nullptr;
    fn(data);
    team = outer;
    self = me;
    return;
  }
  Team t;
  t.n = omp.threads;
  if (asked && int(asked) < t.n) t.n = int(asked);
  team = &t;
  touches.clear();
  ++ompst.teams;
  if (omp.faulty && decisions < max_decisions) {
    ++decisions;
    t.mixed = chooser.flip(omp.p_region);
    if (t.mixed && chooser.flip(omp.p_smaller)) {
      t.n = 1 + int(chooser.pick(u32(t.n)));
      fault_fired("smaller_team");
    }
  }
  for (int i = 0; i < t.n; ++i) spawn(i, fn, data, false);
  drive();
  auto err = t.error;
  if (err)
    for (auto& s : t.strands)
      if (!s->done) (void)s->fiber.release();
  team = nullptr;
  if (err) std::rethrow_exception(err);
}
static void barrier() {
  if (!team || !self || self->task) return;
  Team& t = *team;
  if (t.n == 1) return;
  if (++t.arrived == t.n) {
    t.arrived = 0;
    for (auto& s : t.strands)
      if (s->wait == 1) s->wait = 0;
    return;
  }
  self->wait = 1;
  leave();
}
// a memory access of the running thread is about to happen
__attribute__((always_inline)) static inline void access(void const* a, bool write) {
  if (!self) return;
  void* pc = __builtin_return_address(0);
  ++ompst.accesses;
  if (a && team->mixed && omp.p_conflict > 0) {
    busy = true;
    auto& t = touches[reinterpret_cast<u64>(a)];
    u32 bit = 1u << (self->id & 31);
    bool conflict = (t.wmask & ~bit) || (write && (t.mask & ~bit));
    if (conflict) {
      ++ompst.conflicts;
      ++racy[pc];
      ++racy[t.pc];
    }
    t.mask |= bit;
    if (write) t.wmask |= bit;
    t.pc = pc;
    busy = false;
    if ((conflict || racy.count(pc)) && may_decide()) {
      ++decisions;
      if (chooser.flip(omp.p_conflict)) {
        preempt();
        return;
      }
    }
  }
  if (--quantum <= 0) preempt();
}
// memory given back may be handed to another thread: what was known about it is forgotten
static void forget(void* p) {
  if (!self || !p || busy || touches.empty()) return;
  busy = true;
  auto n = malloc_usable_size(p);
  for (std::size_t i = 0; i < n; ++i) touches.erase(reinterpret_cast<u64>(p) + i);
  busy = false;
}
}  // namespace sim
using namespace sim;

void operator delete(void* p) noexcept {
  forget(p);
  std::free(p);
}
void operator delete(void* p, std::size_t) noexcept {
  forget(p);
  std::free(p);
}
void operator delete(void* p, std::nothrow_t const&) noexcept {
  forget(p);
  std::free(p);
}

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nthreads, unsigned) { parallel(fn, data, nthreads); }
void GOMP_barrier() { barrier(); }
void GOMP_atomic_start() {
  if (!self) return;
  access(nullptr, false);
  if (team->lock && team->lock != self) {
    self->wait = 3;
    leave();  // the scheduler hands over the lock
  } else
    team->lock = self;
}
void GOMP_atomic_end() {
  if (self && team->lock == self) team->lock = nullptr;
}
void GOMP_critical_start() { GOMP_atomic_start(); }
void GOMP_critical_end() { GOMP_atomic_end(); }
void GOMP_critical_name_start(void**) { GOMP_atomic_start(); }
void GOMP_critical_name_end(void**) { GOMP_atomic_end(); }
bool GOMP_single_start() { return !self || self->num == 0; }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool cond, unsigned, void**, int, void*) {
  ++ompst.tasks;
  std::vector<char> buf(std::size_t(size + align));
  auto at = [&](std::vector<char>& b) {
    auto x = reinterpret_cast<u64>(b.data());
    return reinterpret_cast<void*>((x + u64(align) - 1) / u64(align) * u64(align));
  };
  if (!self || !cond || team->n == 1 || (may_decide() && (++decisions, chooser.flip(omp.p_task_now)))) {
    if (cpy) {
      cpy(at(buf), data);
      fn(at(buf));
    } else
      fn(data);
    return;
  }
  auto me = self;
  // the arguments are copied before the task can start
  if (cpy)
    cpy(at(buf), data);
  else
    std::memcpy(at(buf), data, std::size_t(size));
  auto p = spawn(int(ompst.tasks % u64(team->n)), fn, at(buf), true);
  p->arg = std::move(buf);
  p->parent = me;
  ++me->kids;
  access(nullptr, false);
}
void GOMP_taskwait() {
  if (!self || self->kids == 0) return;
  self->wait = 2;
  leave();
}
int omp_get_thread_num() { return self ? self->num : 0; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_max_threads() { return in_world() ? omp.threads : 1; }
int omp_in_parallel() { return team && team->n > 1; }
int omp_get_num_procs() { return omp.threads; }
void omp_set_num_threads(int) {}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                  \
  void __tsan_read##n(void* a) { access(a, false); }           \
  void __tsan_write##n(void* a) { access(a, true); }           \
  void __tsan_unaligned_read##n(void* a) { access(a, false); } \
  void __tsan_unaligned_write##n(void* a) { access(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { access(a, false); }
void __tsan_write_range(void* a, unsigned long) { access(a, true); }
void __tsan_vptr_update(void** a, void*) { access(a, true); }
void __tsan_vptr_read(void** a) { access(a, false); }
// every atomic operation is one step: the threads share one processor
#define ATOMIC(bits, T)                                                                                     \
  T __tsan_atomic##bits##_load(T const volatile* a, int) { access((void*)a, false); return *a; }           \
  void __tsan_atomic##bits##_store(T volatile* a, T v, int) { access((void*)a, true); *a = v; }            \
  T __tsan_atomic##bits##_exchange(T volatile* a, T v, int) { access((void*)a, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(T volatile* a, T v, int) { access((void*)a, true); T o = *a; *a = T(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(T volatile* a, T v, int) { access((void*)a, true); T o = *a; *a = T(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(T volatile* a, T v, int) { access((void*)a, true); T o = *a; *a = T(o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or(T volatile* a, T v, int) { access((void*)a, true); T o = *a; *a = T(o | v); return o; }  \
  T __tsan_atomic##bits##_fetch_xor(T volatile* a, T v, int) { access((void*)a, true); T o = *a; *a = T(o ^ v); return o; } \
  T __tsan_atomic##bits##_fetch_nand(T volatile* a, T v, int) { access((void*)a, true); T o = *a; *a = T(~(o & v)); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) {                   \
    access((void*)a, true);                                                                                 \
    if (*a == *c) { *a = v; return 1; }                                                                     \
    *c = *a;                                                                                                \
    return 0;                                                                                               \
  }                                                                                                         \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* c, T v, int x, int y) {                 \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);                                    \
  }                                                                                                         \
  T __tsan_atomic##bits##_compare_exchange_val(T volatile* a, T c, T v, int, int) {                         \
    access((void*)a, true);                                                                                 \
    T o = *a;                                                                                               \
    if (o == c) *a = v;                                                                                     \
    return o;                                                                                               \
  }
using t8 = unsigned char;
using t16 = unsigned short;
using t32 = unsigned int;
using t64 = unsigned long;
ATOMIC(8, t8)
ATOMIC(16, t16)
ATOMIC(32, t32)
ATOMIC(64, t64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
