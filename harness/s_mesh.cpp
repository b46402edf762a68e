// Whole-mesh scenarios: schedule determinism, rank-count independence,
// progress, consistency of distributed meshes, repartitioning.
#include "meshprog.hpp"
using namespace sim;

static void note_events(Trace const& t) {
  for (std::size_t k = 0; k < t.steps.size(); ++k)
    if (t.steps[k][0].dim) event(canon_hash(canonical(t.steps[k])));
}
static Program gen(Rng& r, int minr, int maxr, int size, int nops, char const* mixs, double pf = 0.85) {
  Program p;
  common_cfg(p, r, maxr, pf);
  if (p.cfg["nranks"] < minr) p.cfg["nranks"] = r.range(minr, maxr);
  gen_box(p, r, size);
  gen_ops(p, r, nops, mixs);
  return p;
}
static Trace ok_run(Program const& p, bool test, int n, std::string const& who, bool may_reject = true) {
  auto t = run_program(p, test, n);
  if (may_reject && input_rejected(t)) return t;
  if (t.failed) violate("exception", who + ": rank " + std::to_string(t.fail_rank) + " failed: " + t.what);
  return t;
}

// ---- D01: any message schedule gives the same parts, bit for bit ----
static void schedule_det(Program const& p) {
  int n = int(p.get("nranks"));
  auto ref = ok_run(p, false, n, "in-order schedule");
  if (ref.failed) return;
  auto t = ok_run(p, true, n, "perturbed schedule", false);
  agree_notes(t, "perturbed schedule");
  for (std::size_t k = 0; k < ref.steps.size(); ++k) {
    for (std::size_t r = 0; r < std::size_t(n); ++r) {
      auto d = same_part(ref.steps[k][r], t.steps[k][r]);
      if (!d.empty())
        violate("schedule-dependent", "two schedules of the same run give rank " + std::to_string(r) + " different meshes " + ref.names[k] + ": " + d);
    }
    if (ref.notes[k] != t.notes[k])
      violate("schedule-dependent", "two schedules compute different values " + ref.names[k] + ": " + ref.notes[k][0] + " and " + t.notes[k][0]);
  }
  note_events(t);
}
static AddScenario d01a({"D01", "schedule_adapt", 2,
    [](Rng& r, u64) { return gen(r, 2, 6, 1, int(r.range(1, 5)), "aadrcssjjwGvfftpbgymCRl", 1.0); }, schedule_det, mesh_shrink()});
static AddScenario d01b({"D01", "schedule_move", 3,
    [](Rng& r, u64) { return gen(r, 2, 7, 1, int(r.range(2, 8)), "ftpbgyYomCRlKjvO", 1.0); }, schedule_det, mesh_shrink()});

// ---- D02: the number of ranks and the partition do not change results ----
static void rank_indep(Program const& p) {
  int n = int(p.get("nranks"));
  auto ref = ok_run(p, false, 1, "on one rank");
  if (ref.failed) return;
  check_steps(ref, box_opts(p), "one rank");
  auto t = ok_run(p, true, n, "on " + std::to_string(n) + " ranks", false);
  check_steps(t, box_opts(p), std::to_string(n) + " ranks");
  agree_notes(t, std::to_string(n) + " ranks");
  compare_traces(ref, t, "1 rank versus " + std::to_string(n) + " ranks");
  note_events(t);
}
static AddScenario d02a({"D02", "adapt_prog", 3,
    [](Rng& r, u64) { return gen(r, 2, 6, 1, int(r.range(1, 5)), "aadrcssjjwGvfftpbgymCRl"); }, rank_indep, mesh_shrink()});
static AddScenario d02b({"D02", "adapt_deep", 1,
    [](Rng& r, u64) { return gen(r, 2, 4, 1, int(r.range(5, 9)), "aaadrcssjjwGvfmp"); }, rank_indep, mesh_shrink()});

// ---- D03: progress ----
static AddScenario d03a({"D03", "progress_adapt", 2,
    [](Rng& r, u64) {
      auto p = gen(r, 2, 8, 1, int(r.range(1, 5)), "aadrcssjwGvfftpbgyYomCRlK", 1.0);
      if (r.flip(0.4)) p.cfg["time"] = 1;
      return p;
    },
    [](Program const& p) {
      auto t = ok_run(p, true, int(p.get("nranks")), "perturbed schedule");
      if (t.failed) return;
      agree_notes(t, "perturbed schedule");
      note_events(t);
    },
    mesh_shrink()});
static AddScenario d03b({"D03", "progress_move", 3,
    [](Rng& r, u64) {
      auto p = gen(r, 2, 9, 0, int(r.range(2, 10)), "ftpbgyYomCRlKjvO", 1.0);
      if (r.flip(0.4)) p.cfg["time"] = 1;
      return p;
    },
    [](Program const& p) {
      auto t = ok_run(p, true, int(p.get("nranks")), "perturbed schedule");
      if (t.failed) return;
      agree_notes(t, "perturbed schedule");
      note_events(t);
    },
    mesh_shrink()});

// ---- D04: a distributed mesh is consistent after every operation ----
static void consistent(Program const& p) {
  int n = int(p.get("nranks"));
  auto t = ok_run(p, true, n, std::to_string(n) + " ranks");
  if (t.failed) return;
  check_steps(t, box_opts(p), std::to_string(n) + " ranks");
  agree_notes(t, std::to_string(n) + " ranks");
  note_events(t);
}
static AddScenario d04a({"D04", "consistent_adapt", 2,
    [](Rng& r, u64) { return gen(r, 1, 6, 1, int(r.range(2, 6)), "aadrcssjjwGvfftpbggymCRKl", 0.7); }, consistent, mesh_shrink()});
static AddScenario d04b({"D04", "consistent_move", 3,
    [](Rng& r, u64) { return gen(r, 2, 8, 1, int(r.range(2, 9)), "ftpbggyYoCRKlOO", 0.7); }, consistent, mesh_shrink()});
static AddScenario d04c({"D04", "consistent_hyper", 1,
    [](Rng& r, u64) {
      auto p = gen(r, 1, 8, 1, int(r.range(2, 9)), "tpbggyYoCRK", 0.7);
      p.cfg["hyper"] = 1;
      p.cfg["sym"] = 0;
      return p;
    },
    consistent, mesh_shrink()});

// ---- D05: moving a mesh around changes nothing but where things live ----
static void moving(Program const& p) {
  int n = int(p.get("nranks"));
  auto t = ok_run(p, true, n, std::to_string(n) + " ranks");
  if (t.failed) return;
  for (std::size_t k = 0; k < t.steps.size(); ++k) {
    if (k == 0 || p.ops[k - 1].name == "tags" || p.ops[k - 1].name == "fields") continue;
    auto d = compare(canonical(t.steps[k - 1]), canonical(t.steps[k]));
    if (!d.empty()) violate("moved-mesh-differs", t.names[k] + ": " + d);
    int want = t.steps[k][0].parting;
    if (p.ops[k - 1].name == "parting" && n > 1 &&
        want != (p.ops[k - 1].arg(0) == 0 ? OMEGA_H_ELEM_BASED : p.ops[k - 1].arg(0) == 1 ? OMEGA_H_VERT_BASED : OMEGA_H_GHOSTED))
      violate("moved-mesh-differs", t.names[k] + ": the mesh does not have the requested partitioning mode");
    if (p.ops[k - 1].name == "parting" && n > 1) {
      int layers = p.ops[k - 1].arg(0) == 0 ? 0 : p.ops[k - 1].arg(0) == 1 ? 1 : int(std::max<i64>(1, p.ops[k - 1].arg(1, 1)));
      if (t.steps[k][0].nlayers != layers) violate("moved-mesh-differs", t.names[k] + ": the mesh has " + std::to_string(t.steps[k][0].nlayers) + " layers instead of " + std::to_string(layers));
    }
  }
  check_steps(t, box_opts(p), std::to_string(n) + " ranks");
  note_events(t);
}
static AddScenario d05a({"D05", "moving", 3,
    [](Rng& r, u64) {
      auto p = gen(r, 2, 8, 1, int(r.range(2, 8)), "pppbbggggyYoCROO", 0.8);
      p.ops.insert(p.ops.begin(), {"fields", {r.range(1, 63), r.range(0, 999)}});
      p.ops.insert(p.ops.begin(), {"tags", {r.range(0, 99999)}});
      return p;
    },
    moving, mesh_shrink()});
static AddScenario d05b({"D05", "moving_hyper", 1,
    [](Rng& r, u64) {
      auto p = gen(r, 2, 8, 1, int(r.range(2, 8)), "pppbbggggyYoCROO", 0.8);
      p.ops.insert(p.ops.begin(), {"tags", {r.range(0, 99999)}});
      p.cfg["hyper"] = 1;
      p.cfg["sym"] = 0;
      return p;
    },
    moving, mesh_shrink()});

// ---- D07: asynchronous tag synchronisation of a distributed mesh ----
static AddScenario d07m({"D07", "mesh_async", 1,
    [](Rng& r, u64) {
      auto p = gen(r, 2, 7, 0, int(r.range(2, 6)), "pbgggYYYYtO", 0.9);
      p.ops.insert(p.ops.begin(), {"fields", {r.range(1, 63), r.range(0, 999)}});
      p.ops.insert(p.ops.begin(), {"tags", {r.range(0, 99999)}});
      return p;
    },
    moving, mesh_shrink()});
