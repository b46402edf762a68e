// D21: the command-line tools as whole jobs. Every tool's own main() is
// compiled under another name and runs on all ranks of a simulated job, from
// argument parsing to the destruction of the library.
#include <Omega_h_box.hpp>
#include <Omega_h_vtk.hpp>
#include <dlfcn.h>
#include <sys/stat.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <sstream>
#include <typeinfo>
#include "meshprog.hpp"
using namespace sim;

#define TOOLS(X) X(osh_box) X(osh_part) X(osh_scale) X(osh_reorder) X(oshdiff) X(vtkdiff) X(osh2vtk) X(msh2osh) X(osh_eval_implied) X(osh_fix) X(osh_adapt) X(ascii_vtk2osh)
#define X(t) extern "C" int tool_main_##t(int, char**);
TOOLS(X)
#undef X

namespace {
bool in_tool = false;
}
// An exception that no tool catches ends its process without unwinding: the
// job is over where the error is raised.
extern "C" void __cxa_throw(void* obj, void* type, void (*dest)(void*)) {
  static auto real = reinterpret_cast<void (*)(void*, void*, void (*)(void*))>(dlsym(RTLD_NEXT, "__cxa_throw"));
  auto t = static_cast<std::type_info*>(type);
  // the only errors the library catches itself are those of its parsers
  if (in_tool && in_world() && std::strstr(t->name(), "ParserFail") == nullptr) {
    std::string what;
    void* adj = obj;
    if (typeid(std::exception).__do_catch(t, &adj, 1)) what = static_cast<std::exception*>(adj)->what();
    fail_world(what.empty() ? "exception" : what);
  }
  real(obj, type, dest);
  __builtin_unreachable();
}
namespace {
using Args = std::vector<std::string>;
struct Job {
  bool failed = false, crashed = false;
  std::string what;
  std::vector<int> status;
};
int (*tool(std::string const& name))(int, char**) {
#define X(t) \
  if (name == #t) return &tool_main_##t;
  TOOLS(X)
#undef X
  harness_error("no tool " + name);
}
// flags of the library itself may stand anywhere on the command line
Args with_library_flags(Program const& p, Args a, u64 seed) {
  Rng r(mix(seed, 5));
  auto put = [&](Args const& f) { a.insert(a.begin() + long(r.below(a.size() + 1)), f.begin(), f.end()); };
  put({"--osh-silent"});
  if (p.get("selfsend", -1) >= 0) {
    // not between another flag and its value
    Args f{"--osh-self-send", std::to_string(p.get("selfsend"))};
    a.insert(r.flip(0.5) ? a.begin() : a.end(), f.begin(), f.end());
  }
  if (p.get("time") && r.flip(0.5)) a.insert(a.begin(), "--osh-time");
  return a;
}
Job start(Program const& p, int n, std::string const& name, Args args) {
  auto main = tool(name);
  Job j;
  j.status.assign(std::size_t(n), -99);
  auto cfg = world_cfg(p, true, n);
  in_tool = true;
  auto r = run_world(cfg, [&](int rank) {
    std::vector<std::string> copy{name};
    copy.insert(copy.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (auto& s : copy) argv.push_back(&s[0]);
    argv.push_back(nullptr);
    std::string what;
    int st = -1;
    try {
      st = main(int(copy.size()), argv.data());
    } catch (std::exception const& ex) {
      what = ex.what();
      if (what.empty()) what = "exception";
    }
    if (!what.empty()) fail_world(what);
    j.status[std::size_t(rank)] = st;
  });
  in_tool = false;
  j.failed = r.failed;
  j.crashed = r.crashed;
  j.what = r.what;
  return j;
}
std::string line(std::string const& name, Args const& a, int n) {
  std::string s = "\"" + name;
  for (auto& x : a) s += " " + x;
  return s + "\" on " + std::to_string(n) + " ranks";
}
// the exit status of a job that must finish
int run(Program const& p, int n, std::string const& name, Args args, u64 seed = 0) {
  if (seed) args = with_library_flags(p, args, seed);
  auto j = start(p, n, name, args);
  if (j.failed) violate("exception", line(name, args, n) + " failed: " + j.what);
  for (int s : j.status)
    if (s != j.status[0]) violate("tool-status", line(name, args, n) + " ends with status " + std::to_string(j.status[0]) + " on one rank and " + std::to_string(s) + " on another");
  return j.status[0];
}
void must(Program const& p, int n, std::string const& name, Args args, u64 seed) {
  int s = run(p, n, name, args, seed);
  if (s != 0) violate("tool-status", line(name, args, n) + " ends with status " + std::to_string(s));
}
// a command line that cannot be understood: every process says so and ends
void decline(Program const& p, int n, std::string const& name, Args const& args, std::string const& why) {
  int st = run(p, n, name, args);
  if (st == 0) violate("tool-accepts", line(name, args, n) + " ends with status 0 although " + why);
}
void refuse(Program const& p, int n, std::string const& name, Args const& args, std::string const& why) {
  auto j = start(p, n, name, args);
  if (j.failed) return;
  for (int s : j.status)
    if (s == 0) violate("tool-accepts", line(name, args, n) + " ends with status 0 although " + why);
}
bool exists(std::string const& f) {
  struct stat st;
  return stat((scratch_root() + "/" + f).c_str(), &st) == 0;
}
std::vector<PartImg> load(Program const& p, std::string const& path, int n, bool strict = true) {
  std::vector<PartImg> v{std::size_t(n)};
  must_run(p, false, n, "reading " + path, [&](Env& e) {
    auto m = oh::binary::read(path, e.world, strict);
    v[std::size_t(e.rank)] = take_image(m);
  });
  return v;
}
Canon view_vtk(Canon c, int upto) {
  for (auto& q : c.parts) {
    q.class_sets.clear();
    for (int d = 1; d < c.dim; ++d)
      if (d != upto) c.ents[d].clear(), q.d[d].tags.clear();
    for (int d : {0, c.dim}) q.d[d].tags.erase("vtkGhostType");
  }
  return c;
}
Args box_args(Program const& p, std::string const& out, u64 seed) {
  int dim = int(p.get("dim"));
  auto num = [](double v) {
    std::ostringstream s;
    s << v;
    return s.str();
  };
  Args a{num(1.0 + 0.25 * double(p.get("lx", 0))), num(dim > 1), num(dim > 2), num(double(p.get("nx"))), num(dim > 1 ? double(p.get("ny")) : 0), num(dim > 2 ? double(p.get("nz")) : 0), out};
  Rng r(mix(seed, 3));
  if (p.get("hyper") || r.flip(0.2)) {
    Args f{"--family", p.get("hyper") ? "hypercube" : "simplex"};
    a.insert(a.begin() + long(r.below(a.size() + 1)), f.begin(), f.end());
  }
  if (p.get("sym")) r.flip(0.5) ? a.push_back("--symmetric") : (void)a.insert(a.begin(), "--symmetric");
  return a;
}
// one value changed, or one field added, by a job of its own
void edit(Program const& p, std::string const& from, std::string const& to, int n, int kind, u64 seed, double by) {
  must_run(p, false, n, "editing", [&](Env& e) {
    auto m = oh::binary::read(from, e.world, true);
    int d = seed % 2 ? m.dim() : 0;
    auto g = oh::HostRead<oh::GO>(m.globals(d));
    auto at = i64(seed / 2 % u64(m.nglobal_ents(d)));
    oh::HostWrite<oh::Real> w(g.size());
    for (int i = 0; i < g.size(); ++i) w[i] = (1 + hash01(9, u64(g[i]))) * (kind == 1 && g[i] == at ? 1 + by : 1);
    m.add_tag(d, kind == 2 ? "another" : "field", 1, oh::Reals(w.write()));
    oh::binary::write(to, &m);
  });
}
void tools(Program const& p) {
  bool hyper = p.get("hyper") != 0;
  int k = int(p.get("k")), serial = 1;  // parts of the current file and of its twin
  std::string cur = "a0.osh", twin = "b0.osh";
  auto q = p;  // the reference: each tool on one rank, nothing perturbed
  q.cfg["faulty"] = 0;
  fs_reset(FsCfg());
  u64 seed = u64(p.get("partseed")) + 1;
  must(q, 1, "osh_box", box_args(p, twin, 0), 0);
  FsCfg soft;
  soft.p_short_write = double(p.get("sw")) / 100;
  soft.p_short_read = double(p.get("sr")) / 100;
  soft.p_eintr = double(p.get("ei")) / 100;
  auto faults = [&] { fs_reset(soft); };
  faults();
  must(p, k, "osh_box", box_args(p, cur, seed), seed);
  fs_reset(FsCfg());
  auto o = box_opts(p);
  if (hyper) o.geometry = false;
  std::vector<PartImg> now, ref;
  auto settle = [&](std::string const& when) {
    now = load(p, cur, k);
    ref = load(p, twin, serial);
    check_parts(now, o, when);
    auto d = compare(canonical(ref), canonical(now));
    if (!d.empty()) violate("tool-result", when + ": the file differs from the one written by one rank: " + d);
    std::map<std::string, std::vector<std::pair<int, int>>> want;
    for (auto& kv : oh::get_box_class_sets(now[0].dim)) {
      auto& w = want[kv.first];
      for (auto& c : kv.second) w.push_back({c.dim, c.id});
    }
    for (auto& s : now)
      if (s.class_sets != want) violate("class-sets", when + ": the file does not have the class sets of a box");
    event(canon_hash(canonical(now)));
  };
  settle("osh_box");
  {  // as many cells as asked for
    i64 cells = p.get("nx"), n = 0, per = 1;
    int dim = int(p.get("dim"));
    if (dim > 1) cells *= p.get("ny"), per = hyper ? 1 : p.get("sym") ? 4 : 2;
    if (dim > 2) cells *= p.get("nz"), per = hyper ? 1 : p.get("sym") ? 24 : 6;
    double far[3] = {0, 0, 0}, size[3] = {1.0 + 0.25 * double(p.get("lx", 0)), 1, 1};
    for (auto& part : now) {
      auto& t = part.d[0].tags.at("coordinates");
      for (std::size_t i = 0; i < t.data.size() / 8; ++i) {
        double x;
        std::memcpy(&x, t.data.data() + i * 8, 8);
        auto c = i % std::size_t(dim);
        far[c] = std::max(far[c], x);
        if (x < 0) violate("tool-result", "osh_box: a vertex lies outside of the box");
      }
    }
    for (int c = 0; c < dim; ++c)
      if (std::fabs(far[c] - size[c]) > 1e-9) violate("tool-result", "osh_box: the box ends at " + exact(far[c]) + " along axis " + std::to_string(c) + ", not at " + exact(size[c]));
    n = i64(canonical(now).ents[dim].size());
    if (n != cells * per) violate("tool-result", "osh_box made " + std::to_string(n) + " elements, not " + std::to_string(cells * per));
  }
  int serialno = 0;
  bool sized = false;
  for (std::size_t i = 0; i < p.ops.size(); ++i) {
    auto& op = p.ops[i];
    u64 s = mix(seed, i + 1);
    int extra = int(op.arg(0));
    auto next = [&](char c) { return c + std::to_string(++serialno) + ".osh"; };
    std::string when = "step " + std::to_string(i + 1) + " (" + op.name + ")";
    faults();
    if (op.name == "part") {
      int out = 1 << op.arg(1), n = std::max(k, out) + extra;
      auto to = op.arg(2) ? cur : next('a');
      if (out < k) {
        refuse(p, n, "osh_part", {cur, std::to_string(out), to}, "it cannot make fewer parts");
        continue;
      }
      must(p, n, "osh_part", {cur, std::to_string(out), to}, s);
      fs_reset(FsCfg());
      bool changed = k != out;
      cur = to, k = out;
      settle(when);
      if (changed) {
        std::vector<i64> owned;
        for (int r = 0; r < k; ++r) {
          i64 c = 0;
          for (int o : now[std::size_t(r)].d[now[0].dim].own_rank) c += o == r;
          owned.push_back(c);
        }
        i64 total = 0, most = *std::max_element(owned.begin(), owned.end());
        for (i64 c : owned) total += c;
        if (total >= 8 * k && double(most) > 1.5 * double(total) / k) violate("tool-balance", when + ": one of " + std::to_string(k) + " parts has " + std::to_string(most) + " of " + std::to_string(total) + " elements");
      }
    } else if (op.name == "reorder") {
      int n = k + extra;
      if (n > 1) {  // it renumbers whole meshes only
        refuse(p, n, "osh_reorder", {cur, "never.osh"}, "it only works on one rank");
        continue;
      }
      auto to = next('a'), t2 = next('b');
      must(p, n, "osh_reorder", {cur, to}, s);
      fs_reset(FsCfg());
      must(q, serial, "osh_reorder", {twin, t2}, 0);
      cur = to, twin = t2;
      settle(when);
    } else if (op.name == "scale" || op.name == "fix" || op.name == "implied") {
      if (hyper) continue;
      auto to = op.arg(2) ? cur : next('a'), t2 = next('b');
      std::string name = op.name == "scale" ? "osh_scale" : op.name == "fix" ? "osh_fix" : "osh_eval_implied";
      auto line_of = [&](std::string const& from, std::string const& dest) {
        if (op.name == "scale") return Args{from, std::to_string(std::max<i64>(2, i64(canonical(ref).ents[ref[0].dim].size()) * op.arg(1) / 100)), dest};
        if (op.name == "fix" && op.arg(1) == 1) return Args{from, "--isotropic", dest};
        if (op.name == "fix" && op.arg(1) == 2) return Args{"--length", "0.4", from, dest};
        return Args{from, dest};
      };
      if (op.name == "fix") {
        // some meshes are too bad for it: on any number of ranks
        fs_reset(FsCfg());
        auto j = start(q, serial, name, line_of(twin, "n.osh"));
        if (j.failed) {
          probe("fix_gave_up");
          refuse(p, k, name, line_of(cur, "never.osh"), "it fails on one rank");
          continue;
        }
        faults();
      }
      must(p, k, name, line_of(cur, to), s);
      fs_reset(FsCfg());
      must(q, serial, name, line_of(twin, t2), 0);
      cur = to, twin = t2;
      auto before = canonical(now).ents[now[0].dim].size();
      settle(when);
      if (op.name == "scale" && !sized) {
        sized = true;
        double got = double(canonical(now).ents[now[0].dim].size()), asked = std::max(2.0, double(before * std::size_t(op.arg(1)) / 100));
        if (asked >= 16 && (got < asked / 2.5 || got > asked * 3)) violate("tool-result", when + ": asked for " + exact(asked) + " elements, osh_scale made " + exact(got));
      }
      for (auto& part : now)
        if (part.d[0].tags.count("metric") != (op.name == "implied")) violate("tool-result", when + ": metric " + (op.name == "implied" ? "missing from" : "left in") + " the file");
      if (op.name == "implied")
        for (auto& part : now)
          if (!part.d[1].tags.count("length") || !part.d[part.dim].tags.count("quality")) violate("tool-result", when + ": lengths or qualities missing from the file");
    } else if (op.name == "diff") {
      int n = std::max(k, serial) + extra, kind = int(op.arg(1)), want = 0;
      fs_reset(FsCfg());
      edit(p, cur, "d0.osh", k, 0, s, 0);
      std::vector<Args> cases;
      std::vector<int> wants;
      std::ostringstream by;
      double rel = std::pow(10.0, -double(op.arg(3, 3)));
      edit(p, cur, "d1.osh", k, kind, s, rel);
      if (kind == 2) edit(p, "d0.osh", "d1.osh", k, 2, s, 0);
      by << rel * (op.arg(2) ? 2.5 : 0.4);
      Args a{"d0.osh", "d1.osh"};
      if (kind == 1 && op.arg(2) != 2) {
        Args f{"-tolerance", by.str()};
        a.insert(a.begin() + long(s % 3), f.begin(), f.end());
        want = op.arg(2) ? 0 : 2;
      } else if (kind == 1)
        want = rel > 1e-6 ? 2 : 0;
      if (kind == 2) {
        if (op.arg(2)) a.insert(a.begin() + long(s % 3), "-superset");
        want = op.arg(2) ? 0 : 2;
      }
      faults();
      int got = run(p, n, "oshdiff", a, s);
      if (got != want) violate("tool-status", when + ": oshdiff ends with status " + std::to_string(got) + ", not " + std::to_string(want));
      if (kind == 1 && rel > 1e-6) {
        got = run(p, n, "oshdiff", {"-superset", "d0.osh", "d1.osh"}, s);
        if (got != 2) violate("tool-status", when + ": oshdiff -superset ends with status " + std::to_string(got) + " for different values");
      }
      got = run(p, n, "oshdiff", {cur, twin}, s);
      if (got != 0) violate("tool-status", when + ": oshdiff finds the file of several ranks different from that of one");
      got = run(p, n, "oshdiff", {"d1.osh", "d0.osh"}, s);
      if ((got != 0) != (kind == 2 || (kind == 1 && rel > 1e-6))) violate("tool-status", when + ": oshdiff the other way round ends with status " + std::to_string(got));
    } else if (op.name == "vtk") {
      int n = k + extra, dim = now[0].dim;
      Args a{cur, "v" + std::to_string(i)};
      if (op.arg(1)) a.insert(a.begin() + 1, std::to_string(dim));
      must(p, n, "osh2vtk", a, 0);
      std::vector<PartImg> got{std::size_t(n)};
      must_run(p, true, n, "reading the VTK files", [&](Env& e) {
        oh::Mesh m(e.lib.get());
        oh::vtk::read_parallel("v" + std::to_string(i) + "/pieces.pvtu", e.world, &m);
        got[std::size_t(e.rank)] = take_image(m);
      });
      auto d = compare(view_vtk(canonical(now), -1), view_vtk(canonical(got), -1));
      if (!d.empty()) violate("tool-result", when + ": the VTK files hold another mesh: " + d);
      if (op.arg(2)) {
        fs_reset(FsCfg());
        edit(p, cur, "d0.osh", k, 0, s, 0), edit(p, cur, "d1.osh", k, 1, s, 1e-3);
        faults();
        must(p, n, "osh2vtk", {"d0.osh", "w0"}, 0);
        must(p, n, "osh2vtk", {"d1.osh", "w1"}, 0);
        must(p, n, "vtkdiff", {"-onestep", "w0", "w0"}, s);
        int st = run(p, n, "vtkdiff", {"w0", "-onestep", "w1"}, s);
        if (st != 2) violate("tool-status", when + ": vtkdiff ends with status " + std::to_string(st) + " for different fields");
        must(p, n, "vtkdiff", {"-tolerance", "1e-2", "w0", "w1", "-onestep"}, s);
        if (op.arg(2) > 1) {
          fs_reset(FsCfg());
          edit(p, "d0.osh", "d2.osh", k, 2, s, 0);
          faults();
          must(p, n, "osh2vtk", {"d2.osh", "w2"}, 0);
          must(p, n, "vtkdiff", {"-superset", "w0", "w2", "-onestep"}, s);
          st = run(p, n, "vtkdiff", {"w0", "w2", "-onestep"}, s);
          if (st != 2) violate("tool-status", when + ": vtkdiff ends with status " + std::to_string(st) + " for another field");
          st = run(p, n, "vtkdiff", {"-superset", "w2", "w0", "-onestep"}, s);
          if (st != 2) violate("tool-status", when + ": vtkdiff ends with status " + std::to_string(st) + " for a missing field");
        }
      }
    } else if (op.name == "wfault") {
      auto hard = soft;
      switch (op.arg(1)) {
        case 0: hard.fail_write_after = op.arg(2) * 20; break;
        case 1: hard.eio_write_at = op.arg(2) / 8; break;
        case 2: hard.fail_wopen_at = op.arg(2) / 20; break;
        case 3: hard.fail_mkdir_at = op.arg(2) / 40; break;
        case 4: hard.fail_close_at = op.arg(2) / 20; break;
      }
      fs_reset(hard);
      Job j;
      auto to = "w" + std::to_string(i);
      std::string name = op.arg(3) == 0 ? "osh_box" : op.arg(3) == 1 ? "osh_part" : "osh2vtk";
      Args a = op.arg(3) == 0 ? box_args(p, to + ".osh", s) : op.arg(3) == 1 ? Args{cur, std::to_string(k), to + ".osh"} : Args{cur, to};
      j = start(p, k, name, a);
      auto injected = fsst.errors_injected;
      bool zero = !j.failed && *std::min_element(j.status.begin(), j.status.end()) == 0;
      if (injected && zero) violate("silent-write-failure", when + ": " + line(name, a, k) + " ends with status 0 although it could not write all of its files");
      if (!injected && !zero) violate("tool-status", when + ": " + line(name, a, k) + " fails without an error: " + j.what);
      probe(injected ? "tool_write_fault" : "tool_write_ok");
    } else if (op.name == "bad") {
      int n = 1 + extra, kind = int(op.arg(1)) % 22;
      switch (kind) {
        case 0: decline(p, n, "osh_box", {"1", "1", "1", "2", "2"}, "arguments are missing"); break;
        case 1: decline(p, n, "osh_box", {"1", "1", "1", "2", "2", "2", "never.osh", "more"}, "there is an argument too many"); break;
        case 2: decline(p, n, "osh_box", {"1", "1", "0", "2", "2", "0", "never.osh", "--family", "polygon"}, "the family is unknown"); break;
        case 3: decline(p, n, "osh_part", {cur, std::to_string(n + 1), "never.osh"}, "there are fewer ranks than parts"); break;
        case 4: decline(p, n, "osh_part", {cur, "0", "never.osh"}, "there are no parts to make"); break;
        case 5: decline(p, n, "osh_part", {cur, "1"}, "an argument is missing"); break;
        case 6: refuse(p, n, "oshdiff", {"missing.osh", cur}, "a file does not exist"); break;
        case 7: refuse(p, n, "osh_reorder", {"missing.osh", "never.osh"}, "the file does not exist"); break;
        case 8: refuse(p, n, "osh2vtk", {cur}, "an argument is missing"); break;
        case 9: decline(p, n, "osh_scale", {cur, "10", "never.osh", "--unknown"}, "there is an unknown flag"); break;
        case 10: refuse(p, n, "osh_part", {"missing.osh", "1", "never.osh"}, "the file does not exist"); break;
        case 11: decline(p, n, "osh_box", {"1", "1", "0", "2", "2", "0", "never.osh", "--family"}, "a flag has no value"); break;
        case 12: decline(p, n, "osh_box", {"1", "1", "1", "2", "2", "2"}, "the output is missing"); break;
        case 13: decline(p, n, "osh_scale", {cur, "10"}, "the output is missing"); break;
        case 14: decline(p, n, "osh_reorder", {cur}, "the output is missing"); break;
        case 15: decline(p, n, "vtkdiff", {"w0"}, "an argument is missing"); break;
        case 16: decline(p, n, "oshdiff", {cur, cur, "-tolerance"}, "a flag has no value"); break;
        case 17: decline(p, n, "vtkdiff", {cur, cur, "-tolerance"}, "a flag has no value"); break;
        case 18: decline(p, n, "osh_fix", {cur, "never.osh", "--length"}, "a flag has no value"); break;
        case 19: decline(p, n, "osh_fix", {cur}, "an argument is missing"); break;
        case 20: decline(p, n, "osh_eval_implied", {cur}, "an argument is missing"); break;
        case 21: decline(p, n, "oshdiff", {cur}, "a file is missing"); break;
      }
      if (exists("never.osh")) violate("tool-accepts", when + ": a refused command wrote its output");
    }
  }
}
// ---- a series of time steps compared as a command file asks ----
struct Spec {
  int type = 1;  // 0 not compared, 1 relative, 2 absolute
  double tol = 1e-6;
};
void series(Program const& p) {
  int k = int(p.get("k")), n = int(p.get("n")), steps = int(p.get("steps"));
  u64 seed = u64(p.get("partseed"));
  static char const* const names[2][3] = {{"n0", "n1", "n2"}, {"e0", "e1", "e2"}};
  // what changed in the second series: [dimension][variable] -> 10^-x in one value of one step
  double change[2][3] = {}, tchange = 0;
  int at_step[2][3] = {};
  double size[2][3];
  for (auto& a : size)
    for (auto& b : a) b = std::pow(10.0, double(mix(seed, u64(&b - &size[0][0])) % 5) - 2);
  bool more = false, fewer = false;
  Spec want[2][3], wtime;
  bool listed[2] = {false, false}, use_file = p.get("file") != 0;
  Spec defaults;
  if (p.get("tol")) defaults.tol = std::pow(10.0, -double(p.get("tol")));
  wtime = defaults;
  std::ostringstream f;
  auto spec = [&](i64 code, Spec base, std::string& text) {
    Spec s = base;
    if (code == 0) return s;
    int e = int(code % 8) + 1;
    s.type = code % 2 ? 1 : 2;
    s.tol = std::pow(10.0, -e);
    text = s.type == 1 ? " relative 1e-" : " absolute 1e-";
    text += std::to_string(e);
    if (s.type == 1 && code % 3 == 0) text += " floor 1e-30";
    return s;
  };
  for (int d = 0; d < 2; ++d)
    for (int v = 0; v < 3; ++v) {
      want[d][v] = defaults;
      if (use_file) want[d][v].type = 0;
    }
  for (auto& op : p.ops) {
    std::string t;
    if (op.name == "change") {
      int d = int(op.arg(0)), v = int(op.arg(1));
      // well away from every tolerance
      change[d][v] = std::pow(10.0, -double(op.arg(2)) - 0.5);
      at_step[d][v] = int(op.arg(3)) % steps;
    }
    if (op.name == "time") tchange = std::pow(10.0, -double(op.arg(0)) - 0.5);
    if (op.name == "more") more = true;
    if (op.name == "fewer") fewer = steps > 1;
    if (!use_file) continue;
    if (op.name == "comment") f << (op.arg(0) ? "# a comment\n" : "\n");
    if (op.name == "other") f << "DEFAULT TOLERANCE relative 1e-9\n";
    if (op.name == "coords") {
      spec(op.arg(0), defaults, t);
      f << "COORDINATES" << t << "\n";
    }
    if (op.name == "steps") {
      wtime = spec(op.arg(0), wtime, t);
      f << "TIME STEPS" << t << "\n";
    }
    if (op.name == "section") {
      int d = int(op.arg(0));
      if (listed[d]) continue;  // one section of each kind
      listed[d] = true;
      bool all = op.arg(1) != 0, any = false;
      auto base = spec(op.arg(2), defaults, t);
      f << (d ? "ELEMENT" : "NODAL") << " VARIABLES" << (all ? " (all)" : "") << t << "\n";
      for (int v = 0; v < 3; ++v) {
        i64 how = op.arg(std::size_t(3 + v));
        if (all) want[d][v] = base;
        std::string tv;
        if (how == 1 && all) f << "\t!" << names[d][v] << "\n", want[d][v].type = 0, any = true;
        if (how >= 2) {
          want[d][v] = spec(how - 2, base, tv);
          f << "\t" << names[d][v] << tv << "\n";
          any = true;
        }
        if (how && op.arg(6)) f << "# between\n";
      }
      if (!all && !any)
        for (int v = 0; v < 3; ++v) want[d][v] = base;
    }
  }
  fs_reset(FsCfg());
  if (use_file) std::ofstream(scratch_root() + "/cmd.txt") << f.str();
  double eps_used = 0;
  for (int which = 0; which < 2; ++which)
    must_run(p, false, k, "writing a series", [&](Env& e) {
      auto m = make_box(e.world, p);
      oh::vtk::Writer w(which ? "sb" : "sa", &m, m.dim());
      for (int st = 0; st < steps - (which && fewer); ++st) {
        for (int d = 0; d < 2; ++d) {
          int ed = d ? m.dim() : 0;
          auto g = oh::HostRead<oh::GO>(m.globals(ed));
          for (int v = 0; v < 3; ++v) {
            oh::HostWrite<oh::Real> x(g.size());
            auto one = i64(mix(seed, u64(d * 3 + v)) % u64(m.nglobal_ents(ed)));
            for (int i = 0; i < g.size(); ++i) x[i] = size[d][v] * (1 + 0.01 * hash01(seed + u64(v), u64(g[i])) + (which && g[i] == one && st == at_step[d][v] ? change[d][v] : 0));
            m.add_tag(ed, names[d][v], 1, oh::Reals(x.write()));
          }
        }
        if (which && more) m.add_tag(0, "another", 1, oh::Reals(m.nverts(), 0, 1));
        double t = 1.0 + 0.5 * st;
        w.write(which && st == steps - 1 ? t * (1 + tchange) : t);
      }
    });
  (void)eps_used;
  bool diff = fewer;
  auto differs = [](Spec s, double by, double size) { return by != 0 && s.type != 0 && (s.type == 1 ? by / size : by) > s.tol; };
  for (int d = 0; d < 2; ++d)
    for (int v = 0; v < 3; ++v) diff = diff || differs(want[d][v], change[d][v] * size[d][v], size[d][v]);
  double tlast = 1.0 + 0.5 * (steps - 1);
  diff = diff || (!fewer && differs(wtime, tchange * tlast, tlast));
  if (more && !p.get("superset")) diff = true;
  Args a{"sa", "sb"};
  Rng r(mix(seed, 8));
  auto put = [&](Args const& x) {  // before, between or after the directories
    int spots[] = {0, int(a.size())};
    a.insert(a.begin() + spots[r.below(2)], x.begin(), x.end());
  };
  if (p.get("superset")) put({"-superset"});
  if (p.get("tol")) put({"-tolerance", "1e-" + std::to_string(p.get("tol"))});
  if (use_file) put({"-f", "cmd.txt"});
  FsCfg soft;
  soft.p_short_read = double(p.get("sr")) / 100;
  soft.p_eintr = double(p.get("ei")) / 100;
  fs_reset(soft);
  int got = run(p, n, "vtkdiff", a, seed + 1);
  if ((got != 0) != diff) violate("tool-status", "vtkdiff ends with status " + std::to_string(got) + " for series that " + (diff ? "differ" : "do not differ") + " under the command file:\n" + f.str());
  probe(diff ? "series_differ" : "series_same");
  event(mix(u64(got), seed));
}
AddScenario d21b({"D21", "series", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 4, 0.8);
      gen_box(p, r, 0);
      for (auto key : {"region", "curve", "flip", "lenient", "nsliver", "tight", "dtol", "verbose"}) p.cfg.erase(key);
      if (p.cfg["dim"] == 1) p.cfg["dim"] = 2, p.cfg["ny"] = 1;
      p.cfg.erase("nranks");
      p.cfg["k"] = r.range(1, 3);
      p.cfg["n"] = p.cfg["k"];
      p.cfg["steps"] = r.range(1, 3);
      p.cfg["file"] = r.flip(0.8);
      if (r.flip(0.3)) p.cfg["tol"] = r.range(2, 8);
      if (r.flip(0.3)) p.cfg["superset"] = 1;
      if (r.flip(0.4)) p.cfg["sr"] = r.range(5, 60);
      if (r.flip(0.3)) p.cfg["ei"] = r.range(5, 40);
      int c = int(r.range(0, 2));
      while (c--) p.ops.push_back({"change", {r.range(0, 1), r.range(0, 2), r.range(1, 9), r.range(0, 2)}});
      if (r.flip(0.15)) p.ops.push_back({"time", {r.range(1, 9)}});
      if (r.flip(0.15)) p.ops.push_back({"more", {}});
      if (r.flip(0.05)) p.ops.push_back({"fewer", {}});
      int m = int(r.range(0, 5));
      while (m--) switch (r.below(6)) {
          case 0: p.ops.push_back({"comment", {r.range(0, 1)}}); break;
          case 1: r.flip(0.5) ? p.ops.push_back({"coords", {r.range(0, 9)}}) : p.ops.push_back({"other", {}}); break;
          case 2: p.ops.push_back({"steps", {r.range(0, 9)}}); break;
          default: {
            Op s{"section", {r.range(0, 1), r.range(0, 1), r.range(0, 9)}};
            for (int v = 0; v < 3; ++v) s.a.push_back(r.flip(0.5) ? 0 : r.range(1, 11));
            s.a.push_back(r.flip(0.2));
            p.ops.push_back(s);
          }
        }
      return p;
    },
    series, [] {
      auto m = mesh_shrink();
      m["k"] = {1, 2};
      m["n"] = {1, 2};
      m["steps"] = {1, 2};
      for (auto key : {"sr", "ei", "superset", "tol"}) m[key] = {0};
      return m;
    }()});
AddScenario d21a({"D21", "tools", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 4, 0.8);
      gen_box(p, r, 0);
      for (auto key : {"region", "curve", "flip", "lenient", "nsliver", "tight", "dtol", "verbose", "balance", "part"}) p.cfg.erase(key);
      p.cfg.erase("nranks");
      p.cfg["k"] = i64(1) << r.range(0, 2);
      if (r.flip(0.2)) p.cfg["hyper"] = 1, p.cfg["sym"] = 0;
      if (p.get("dim") == 1) p.cfg.erase("hyper");
      if (r.flip(0.4)) p.cfg["sw"] = r.range(5, 60);
      if (r.flip(0.4)) p.cfg["sr"] = r.range(5, 60);
      if (r.flip(0.3)) p.cfg["ei"] = r.range(5, 40);
      int n = int(r.range(1, 4));
      for (int i = 0; i < n; ++i) switch (r.below(11)) {
          case 0: p.ops.push_back({"part", {r.range(0, 2), r.range(0, 3), r.flip(0.3)}}); break;
          case 9: p.ops.push_back({"wfault", {0, r.range(0, 4), r.range(0, 200), r.range(0, 2)}}); break;
          case 1: p.ops.push_back({"reorder", {r.flip(0.1)}}); break;
          case 2: p.ops.push_back({"scale", {0, r.range(60, 200), r.flip(0.3)}}); break;
          case 3: p.ops.push_back({"fix", {0, r.range(0, 2), r.flip(0.3)}}); break;
          case 4: p.ops.push_back({"implied", {0, 0, r.flip(0.3)}}); break;
          case 5: p.ops.push_back({"diff", {r.range(0, 1), r.range(0, 2), r.range(0, 2), r.range(2, 8)}}); break;
          case 6: p.ops.push_back({"vtk", {r.flip(0.3) ? r.range(1, 2) : 0, r.range(0, 1), r.range(0, 2)}}); break;
          case 7: p.ops.push_back({"part", {r.range(0, 2), r.range(1, 3), 0}}); break;
          case 8: p.ops.push_back({"scale", {0, r.range(60, 200), r.flip(0.3)}}); break;
          default: p.ops.push_back({"bad", {r.range(0, 3), r.range(0, 21)}});
        }
      return p;
    },
    tools, [] {
      auto m = mesh_shrink();
      m["k"] = {1, 2};
      for (auto key : {"sw", "sr", "ei", "hyper"}) m[key] = {0};
      return m;
    }()});

// ---- files of other formats ----
std::string bytes_of(std::string const& f) {
  std::ifstream s(scratch_root() + "/" + f, std::ios::binary);
  std::stringstream b;
  b << s.rdbuf();
  return b.str();
}
void convert(Program const& p) {
  int k = int(p.get("k")), kind = int(p.get("kind")), dim = int(p.get("dim"));
  u64 seed = u64(p.get("partseed")) + 1;
  auto q = p;
  q.cfg["faulty"] = 0;
  FsCfg soft;
  soft.p_short_write = double(p.get("sw")) / 100;
  soft.p_short_read = double(p.get("sr")) / 100;
  soft.p_eintr = double(p.get("ei")) / 100;
  fs_reset(FsCfg());
  std::vector<PartImg> orig(1);
  std::size_t nverts = 0;
  must_run(q, false, 1, "the mesh to convert", [&](Env& e) {
    auto m = make_box(e.world, p);
    nverts = std::size_t(m.nverts());
    orig[0] = take_image(m);
    if (kind != 2) {
      oh::gmsh::write("in.msh", &m);
      int nc = dim * (dim + 1) / 2;
      oh::HostWrite<oh::Real> w(m.nverts() * nc);
      double size = 0.2 + 0.1 * double(p.get("size", 4));
      for (int i = 0; i < w.size(); ++i) {
        int c = i % nc;
        bool diag = dim == 2 ? c != 1 : c == 0 || c == 2 || c == 5;  // lower triangle by rows
        w[i] = diag ? 1 / (size * size) : 0;
      }
      oh::write_reals_txt("metric.txt", oh::Reals(w.write()), nc);
      return;
    }
    // the legacy format of ascii_vtk2osh, each cell in a material of its own
    std::ofstream f(scratch_root() + "/in.vtk");
    f.precision(17);
    f << "# vtk DataFile Version 3.0\nbox\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS " << m.nverts() << " double\n";
    auto x = oh::HostRead<oh::Real>(m.coords());
    for (int i = 0; i < m.nverts(); ++i) f << x[3 * i] << ' ' << x[3 * i + 1] << ' ' << x[3 * i + 2] << '\n';
    auto ev = oh::HostRead<oh::LO>(m.ask_elem_verts());
    f << "\nCELLS " << m.nelems() << ' ' << 5 * m.nelems() << '\n';
    for (int i = 0; i < m.nelems(); ++i) f << "4 " << ev[4 * i] << ' ' << ev[4 * i + 1] << ' ' << ev[4 * i + 2] << ' ' << ev[4 * i + 3] << '\n';
    f << "\nCELL_TYPES " << m.nelems() << '\n';
    for (int i = 0; i < m.nelems(); ++i) f << "10\n";
    auto cl = oh::HostRead<oh::I32>(m.get_array<oh::I32>(3, "class_id"));
    f << "\nCELL_DATA " << m.nelems() << "\nSCALARS mat int 1\nLOOKUP_TABLE default\n";
    for (int i = 0; i < m.nelems(); ++i) f << cl[i] << '\n';
  });
  auto o = box_opts(p);
  auto same = [&](std::vector<PartImg> const& v, char const* who) {
    auto a = canonical(orig), b = canonical(v);
    for (int d = 0; d <= dim; ++d)
      if (a.ents[d].size() != b.ents[d].size()) violate("tool-result", std::string(who) + ": the number of entities of dimension " + std::to_string(d) + " differs from the mesh converted");
    // each cell, by its place: what it is made of
    auto cells = [&](Canon const& c) {
      std::map<i64, std::array<double, 3>> at;
      auto& t0 = c;
      for (auto& e : t0.ents[0]) {
        auto& t = t0.parts[std::size_t(e.part)].d[0].tags.at("coordinates");
        std::array<double, 3> x{0, 0, 0};
        std::memcpy(x.data(), t.data.data() + std::size_t(e.idx) * t.width, t.width);
        at[e.gid] = x;
      }
      std::map<std::vector<std::array<double, 3>>, int> m;
      for (auto& e : c.ents[dim]) {
        auto& D = c.parts[std::size_t(e.part)].d[dim];
        std::vector<std::array<double, 3>> v;
        for (int i = 0; i < D.deg; ++i) v.push_back(at.at(D.verts[std::size_t(e.idx * D.deg + i)]));
        std::sort(v.begin(), v.end());
        int id;
        std::memcpy(&id, D.tags.at("class_id").data.data() + std::size_t(e.idx) * 4, 4);
        m[v] = id;
      }
      return m;
    };
    if (cells(a) != cells(b)) violate("tool-result", std::string(who) + ": the cells or their classification differ from the mesh converted");
  };
  fs_reset(soft);
  if (kind == 0) {
    must(p, k, "msh2osh", {"in.msh", "out.osh"}, 0);
    fs_reset(FsCfg());
    must(q, 1, "msh2osh", {"in.msh", "one.osh"}, 0);
    auto many = load(p, "out.osh", k), one = load(p, "one.osh", 1);
    check_parts(many, o, "msh2osh");
    auto d = compare(canonical(one), canonical(many));
    if (!d.empty()) violate("tool-result", "msh2osh on " + std::to_string(k) + " ranks writes another mesh than on one: " + d);
    same(many, "msh2osh");
    event(canon_hash(canonical(many)));
  } else if (kind == 1) {
    Args a{"--mesh-in", "in.msh", "--mesh-out", "out.msh", "--metric-in", "metric.txt", "--metric-out", "m.txt"};
    // pairs in any order
    Rng r(seed);
    for (std::size_t i = 3; i > 0; --i) {
      auto j = r.below(i + 1);
      std::swap(a[2 * i], a[2 * j]), std::swap(a[2 * i + 1], a[2 * j + 1]);
    }
    must(p, 1, "osh_adapt", a, 0);
    auto mesh = bytes_of("out.msh"), metric = bytes_of("m.txt");
    fs_reset(FsCfg());
    must(q, 1, "osh_adapt", {"--mesh-in", "in.msh", "--mesh-out", "two.msh", "--metric-in", "metric.txt"}, 0);
    if (mesh != bytes_of("two.msh")) violate("tool-result", "osh_adapt writes another mesh when file operations are interrupted");
    std::vector<PartImg> got(1);
    must_run(q, false, 1, "reading the adapted mesh", [&](Env& e) {
      auto m = oh::gmsh::read("out.msh", e.world);
      got[0] = take_image(m);
      int nc = dim * (dim + 1) / 2;
      auto x = oh::HostRead<oh::Real>(oh::read_reals_txt("m.txt", m.nverts(), nc));
      // what was asked for everywhere, up to how fast sizes may change
      double size = 0.2 + 0.1 * double(p.get("size", 4)), top = 1 / (size * size);
      for (int i = 0; i < x.size(); ++i) {
        int c = i % nc;
        bool diag = dim == 2 ? c != 1 : c == 0 || c == 2 || c == 5;
        if (std::fabs(x[i] - (diag ? top : 0)) > 1e-6 * top) violate("tool-result", "osh_adapt ends with another metric than asked for: " + exact(x[i]));
      }
    });
    check_parts(got, o, "osh_adapt");
    refuse(p, 1, "osh_adapt", {"--mesh-in", "in.msh", "--mesh-out", "never.msh"}, "the metric is missing");
    refuse(p, 1, "osh_adapt", {"--mesh-in", "in.msh", "--mesh-out", "never.msh", "--metric-in", "metric.dat"}, "the metric is of an unknown format");
    if (exists("never.msh")) violate("tool-accepts", "a refused osh_adapt wrote its output");
    event(hash_bytes(mesh.data(), mesh.size()));
  } else {
    must(p, 1, "ascii_vtk2osh", {"in.vtk", "out.osh"}, 0);
    fs_reset(FsCfg());
    auto got = load(p, "out.osh", 1);
    check_parts(got, o, "ascii_vtk2osh");
    same(got, "ascii_vtk2osh");
    event(canon_hash(canonical(got)));
  }
}
AddScenario d21c({"D21", "convert", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 4, 0.8);
      gen_box(p, r, 0);
      for (auto key : {"curve", "flip", "lenient", "nsliver", "tight", "dtol", "verbose", "balance", "part"}) p.cfg.erase(key);
      p.cfg["kind"] = r.of(std::vector<int>{0, 0, 1, 2});
      if (p.cfg["kind"] == 2) p.cfg["dim"] = 3, p.cfg["ny"] = r.range(1, 2), p.cfg["nz"] = r.range(1, 2);
      if (p.cfg["kind"] < 2 && p.cfg["dim"] == 1) p.cfg["dim"] = 2, p.cfg["ny"] = r.range(1, 3);
      p.cfg["size"] = r.range(0, 6);
      p.cfg.erase("nranks");
      p.cfg["k"] = i64(1) << r.range(0, 2);
      if (r.flip(0.5)) p.cfg["sw"] = r.range(5, 60);
      if (r.flip(0.5)) p.cfg["sr"] = r.range(5, 60);
      if (r.flip(0.4)) p.cfg["ei"] = r.range(5, 40);
      return p;
    },
    convert, [] {
      auto m = mesh_shrink();
      m["k"] = {1, 2};
      for (auto key : {"sw", "sr", "ei"}) m[key] = {0};
      return m;
    }()});
}  // namespace
