// Memory: contents of fresh memory, pooling and accounting do not matter,
// failing allocations end the job, arrays live exactly as long as they are
// used (D18).
#include <Omega_h_array_ops.hpp>
#include <Omega_h_for.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_shared_alloc.hpp>
#include <Omega_h_sort.hpp>
#include <exception>
#include "meshprog.hpp"
using namespace sim;
namespace {
struct MemRun {
  Trace t;
  std::vector<u64> allocs;
};
void mem_setup(int poison, u64 seed, i64 fail_at = -1, int fail_rank = 0, int fail_count = 1, std::size_t fail_above = 0) {
  MemCfg mc;
  mc.poison = poison;
  mc.seed = seed;
  mc.track = true;
  mc.fail_at = fail_at;
  mc.fail_rank = fail_rank;
  mc.fail_count = fail_count;
  mc.fail_above = fail_above;
  mem_reset(mc);
}
void check_all_freed(std::string const& who) {
  mem_check_guards();
  if (auto n = mem_live_blocks()) violate("memory", who + ": " + std::to_string(n) + " arrays were never freed");
}
void same_traces(Trace const& a, Trace const& b, std::string const& who) {
  for (std::size_t k = 0; k < a.steps.size(); ++k) {
    for (std::size_t r = 0; r < a.steps[k].size(); ++r) {
      auto d = same_part(a.steps[k][r], b.steps[k][r]);
      if (!d.empty()) violate("memory-dependent", who + " gives rank " + std::to_string(r) + " another mesh " + a.names[k] + ": " + d);
    }
    if (a.notes[k] != b.notes[k]) violate("memory-dependent", who + " computes other values " + a.names[k] + ": " + a.notes[k][0] + " and " + b.notes[k][0]);
  }
}
void memory(Program const& p) {
  int n = int(p.get("nranks"));
  std::set_terminate([] { sim::fail_world("terminate called"); });
  auto q = p;
  q.cfg["pool"] = 0;
  q.cfg["account"] = 0;
  mem_setup(1, 1);
  auto ref = run_program(q, false, n);
  if (input_rejected(ref)) return;
  if (ref.failed) violate("exception", "rank " + std::to_string(ref.fail_rank) + " failed: " + ref.what);
  std::vector<u64> allocs(mem_allocs, mem_allocs + n);
  check_all_freed("after the job");
  bool pool = p.get("pool") != 0;
  if (!p.get("fail")) {
    mem_setup(int(p.get("poison", 3)), u64(p.get("memseed")));
    auto t = run_program(p, p.get("perturb") != 0, n);
    if (t.failed) violate("exception", "rank " + std::to_string(t.fail_rank) + " failed: " + t.what);
    check_all_freed(pool ? "with pooling" : "with other memory contents");
    same_traces(ref, t, pool ? "pooling" : "other content of fresh memory");
    for (auto& s : t.steps) event(canon_hash(canonical(s)));
    return;
  }
  u64 s = u64(p.get("memseed"));
  int rank = int(s % u64(n));
  i64 at = i64(mix(s, 7) % std::max<u64>(1, allocs[std::size_t(rank)]));
  int count = p.get("fail") == 1 ? 1 : 1 << 30;
  mem_setup(int(p.get("poison", 3)), s, at, rank, count, p.get("fail") == 3 ? 1024 : 0);
  auto before = stats.faults["alloc_failure"];
  auto t = run_program(p, p.get("perturb") != 0, n);
  auto fired = stats.faults["alloc_failure"] - before;
  mem_check_guards();
  if (t.failed) {
    if (!fired) violate("exception", "rank " + std::to_string(t.fail_rank) + " failed: " + t.what);
    if (pool && count == 1) violate("memory", "a pool that could have used its free blocks gave up: " + t.what);
    if (t.fail_rank != rank) violate("memory", "an allocation failed on rank " + std::to_string(rank) + " but rank " + std::to_string(t.fail_rank) + " failed: " + t.what);
    event(mix(u64(at), 3));
    return;
  }
  // the failure may only be survived by a pool giving back what it holds
  if (fired && !pool) violate("memory", "an allocation failed on rank " + std::to_string(rank) + " and the job went on");
  check_all_freed("after a failed allocation");
  same_traces(ref, t, "a failed allocation");
  event(mix(u64(at), 5));
}
AddScenario d18a({"D18", "memory", 3,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 4, 0.9);
      gen_box(p, r, 1);
      gen_ops(p, r, int(r.range(1, 4)), "aadrcssjwGvfftpbgymCRloK");
      p.cfg["pool"] = r.flip(0.5);
      p.cfg["poison"] = r.range(1, 3);
      p.cfg["memseed"] = r.range(0, 999999);
      p.cfg["perturb"] = r.flip(0.5);
      p.cfg["fail"] = r.flip(0.5) ? r.range(1, 3) : 0;
      return p;
    },
    memory, {{"pool", {0}}, {"perturb", {0}}, {"poison", {1}}, {"nranks", {1, 2}}, {"nx", {1}}, {"ny", {1}}, {"nz", {1}}}});

// ---- histories of arrays: shared, copied, moved, assigned to themselves ----
struct Slot {
  bool set = false;
  oh::Write<oh::LO> w;
  std::shared_ptr<std::vector<int>> m;  // the storage, shared like the array
};
void array_history(Program const& p) {
  mem_setup(int(p.get("poison", 3)), u64(p.get("memseed")));
  must_run(p, false, int(p.get("nranks", 1)), "array history", [&](Env& e) {
    bool acc = p.get("account") != 0;
    if (acc) oh::start_tracking_allocations();
    i64 base = mem_live_bytes[e.rank];
    mem_peak_bytes[e.rank] = base;
    {
      std::vector<Slot> v(5);
      auto check = [&](std::string const& what) {
        for (std::size_t k = 0; k < v.size(); ++k) {
          auto& s = v[k];
          if (s.w.exists() != s.set) violate("array", "after " + what + ", array " + std::to_string(k) + (s.set ? " does not exist" : " exists"));
          if (!s.set) continue;
          if (s.w.size() != int(s.m->size())) violate("array", "after " + what + ", array " + std::to_string(k) + " has size " + std::to_string(s.w.size()) + " instead of " + std::to_string(s.m->size()));
          for (int i = 0; i < s.w.size(); ++i)
            if (s.w.get(i) != (*s.m)[std::size_t(i)]) violate("array", "after " + what + ", array " + std::to_string(k) + " holds " + std::to_string(s.w.get(i)) + " at " + std::to_string(i) + " instead of " + std::to_string((*s.m)[std::size_t(i)]));
          if (s.w.use_count() != s.m.use_count()) violate("array", "after " + what + ", array " + std::to_string(k) + " counts " + std::to_string(s.w.use_count()) + " users instead of " + std::to_string(s.m.use_count()));
        }
        if (acc && !p.get("pool")) {
          auto live = mem_live_bytes[e.rank] - base;
          if (i64(oh::global_allocs->total_bytes) != live) violate("memory", "after " + what + ", " + std::to_string(oh::global_allocs->total_bytes) + " bytes are accounted for and " + std::to_string(live) + " are allocated");
          i64 sum = 0;
          for (auto a = oh::global_allocs->first; a; a = a->next) {
            sum += i64(a->size);
            if ((a->next ? a->next->prev : oh::global_allocs->last) != a) violate("memory", "after " + what + ", the list of allocations is broken");
          }
          if (sum != live) violate("memory", "after " + what + ", the list of allocations holds " + std::to_string(sum) + " bytes and " + std::to_string(live) + " are allocated");
          if (i64(oh::global_allocs->high_water_bytes) != mem_peak_bytes[e.rank] - base) violate("memory", "after " + what + ", the high water mark is " + std::to_string(oh::global_allocs->high_water_bytes) + " instead of " + std::to_string(mem_peak_bytes[e.rank] - base));
        }
      };
      for (auto& op : p.ops) {
        auto& a = v[std::size_t(op.arg(0)) % v.size()];
        auto& b = v[std::size_t(op.arg(1)) % v.size()];
        int x = int(op.arg(2));
        auto& nm = op.name;
        if (nm == "new") {
          int n = x % 40;
          a.w = oh::Write<oh::LO>(n, x, 3, "history");
          a.m = std::make_shared<std::vector<int>>(std::size_t(n));
          for (int i = 0; i < n; ++i) (*a.m)[std::size_t(i)] = x + 3 * i;
          a.set = true;
        } else if (nm == "copy") {
          a.w = b.w;
          a.m = b.m, a.set = b.set;
        } else if (nm == "move") {
          if (&a == &b) {
            auto& alias = a.w;
            a.w = std::move(alias);
          } else {
            a.w = std::move(b.w);
            a.m = std::move(b.m), a.set = b.set, b.set = false;
            b.m.reset();
          }
        } else if (nm == "swap") {
          if (&a != &b) std::swap(a.w, b.w), std::swap(a.m, b.m), std::swap(a.set, b.set);
        } else if (nm == "drop") {
          a.w = oh::Write<oh::LO>();
          a.m.reset(), a.set = false;
        } else if (!b.set) {
          continue;
        } else if (nm == "set") {
          if (b.m->empty()) continue;
          int i = x % int(b.m->size());
          b.w.set(i, x), (*b.m)[std::size_t(i)] = x;
        } else if (nm == "deep") {
          a.w = oh::deep_copy(oh::LOs(b.w));
          a.m = std::make_shared<std::vector<int>>(*b.m), a.set = true;
        } else if (nm == "fill") {
          oh::fill(b.w, oh::LO(x));
          std::fill(b.m->begin(), b.m->end(), x);
        } else if (nm == "loop") {
          auto w = b.w;
          auto f = OMEGA_H_LAMBDA(oh::LO i) { w[i] = w[i] * 2 + x % 100; };
          w = oh::Write<oh::LO>();
          oh::parallel_for(b.w.size(), f, "history");
          for (auto& y : *b.m) y = int(unsigned(y) * 2u) + x % 100;
          for (auto& y : *b.m) y %= 1000003;
          auto w2 = b.w;
          auto g = OMEGA_H_LAMBDA(oh::LO i) { w2[i] %= 1000003; };
          oh::parallel_for(b.w.size(), std::move(g), "history");
          w2 = oh::Write<oh::LO>();
        } else if (nm == "host") {
          oh::HostWrite<oh::LO> h(b.w.size());
          oh::HostRead<oh::LO> r((oh::LOs(b.w)));
          for (int i = 0; i < r.size(); ++i) h[i] = r[r.size() - 1 - i];
          auto m2 = std::make_shared<std::vector<int>>(b.m->rbegin(), b.m->rend());
          r = oh::HostRead<oh::LO>();
          a.w = h.write();
          a.m = m2, a.set = true;
        } else if (nm == "read") {
          // results of array operations are new arrays
          oh::LOs in(b.w);
          auto src = *b.m;
          std::vector<int> out;
          oh::LOs res;
          switch (x % 6) {
            case 0: res = oh::add_to_each(in, oh::LO(5)); for (int y : src) out.push_back(y + 5); break;
            case 1: res = oh::max_each(in, in); out = src; break;
            case 2: {
              res = oh::unmap(oh::LOs(in.size(), in.size() - 1, -1), in, 1);
              out.assign(src.rbegin(), src.rend());
              break;
            }
            case 3: {
              res = oh::multiply_each_by(in, oh::LO(-1));
              for (int y : src) out.push_back(-y);
              break;
            }
            case 4: {
              res = oh::sort_by_keys(in);
              for (int i = 0; i < int(src.size()); ++i) out.push_back(i);
              std::stable_sort(out.begin(), out.end(), [&](int i, int j) { return src[std::size_t(i)] < src[std::size_t(j)]; });
              break;
            }
            default: {
              auto m = oh::each_gt(in, oh::LO(x % 50));
              res = oh::collect_marked(m);
              for (int i = 0; i < int(src.size()); ++i)
                if (src[std::size_t(i)] > x % 50) out.push_back(i);
            }
          }
          oh::HostRead<oh::LO> r(res);
          if (r.size() != int(out.size())) violate("array", nm + " " + std::to_string(x % 6) + " gives the wrong size");
          for (int i = 0; i < r.size(); ++i)
            if (r[i] != out[std::size_t(i)]) violate("array", nm + " " + std::to_string(x % 6) + " gives the wrong value at " + std::to_string(i));
        } else if (nm == "tag") {
          // a tag keeps its array alive and shares it
          oh::Mesh m(e.lib.get());
          m.set_comm(e.lib->self());
          m.set_family(OMEGA_H_SIMPLEX);
          m.set_dim(1);
          m.set_verts(b.w.size());
          m.add_tag(0, "t", 1, oh::LOs(b.w));
          oh::Mesh m2 = m;
          m.remove_tag(0, "t");
          auto r = oh::HostRead<oh::LO>(m2.get_array<oh::LO>(0, "t"));
          for (int i = 0; i < r.size(); ++i)
            if (r[i] != (*b.m)[std::size_t(i)]) violate("array", "a tag of a copied mesh changes when the original loses it");
        }
        check(nm);
        event(mix(u64(op.arg(0) * 5 + op.arg(1)), sim::mix(u64(x), u64(nm[0]))));
      }
    }
    if (acc) {
      if (oh::global_allocs->first || oh::global_allocs->total_bytes) violate("memory", "allocations are still accounted for when all arrays are gone");
      oh::stop_tracking_allocations(e.lib.get());
    }
  });
  check_all_freed("after the history");
}
AddScenario d18b({"D18", "array_history", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 2, 0.0);
      p.cfg["poison"] = r.range(1, 3);
      p.cfg["memseed"] = r.range(0, 999999);
      p.cfg["pool"] = r.flip(0.4);
      p.cfg["account"] = r.flip(0.5);
      static char const* const nm[] = {"new", "copy", "move", "swap", "drop", "set", "deep", "fill", "loop", "host", "read", "tag", "new", "copy"};
      int n = int(r.range(3, 25));
      for (int k = 0; k < n; ++k) p.ops.push_back({nm[r.below(14)], {r.range(0, 4), r.range(0, 4), r.range(0, 9999)}});
      return p;
    },
    array_history, {{"pool", {0}}, {"account", {0}}, {"poison", {1}}, {"nranks", {1}}}});
}  // namespace
