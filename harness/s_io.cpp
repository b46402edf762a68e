// Files: round trips under short and interrupted I/O, reported failures,
// crash points and truncation, restart equivalence, VTK output.
#include <Omega_h_scatterplot.hpp>
#include <Omega_h_vtk.hpp>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <set>
#include <sstream>
#include "meshprog.hpp"
using namespace sim;

namespace {
enum Fmt { OSH = 0, VTK = 1, GMSH = 2, TXT = 3, PLOT = 4 };

FsCfg soft_faults(Program const& p) {
  FsCfg f;
  f.p_short_write = double(p.get("sw")) / 100;
  f.p_short_read = double(p.get("sr")) / 100;
  f.p_eintr = double(p.get("ei")) / 100;
  return f;
}
void soft_cfg(Program& p, Rng& r) {
  if (r.flip(0.5)) p.cfg["sw"] = r.range(5, 60);
  if (r.flip(0.5)) p.cfg["sr"] = r.range(5, 60);
  if (r.flip(0.4)) p.cfg["ei"] = r.range(5, 40);
}
std::string slurp(std::string const& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
bool file_exists(std::string const& path) {
  struct stat st;
  return stat(path.c_str(), &st) == 0;
}
// keep what VTK files hold: vertices and elements
Canon vtk_view(Canon c) {
  for (auto& q : c.parts) {
    q.class_sets.clear();
    for (int d = 1; d < c.dim; ++d) {
      c.ents[d].clear();
      q.d[d].tags.clear();
    }
    for (int d : {0, c.dim}) q.d[d].tags.erase("vtkGhostType");
  }
  return c;
}
// entities by the coordinates of their vertices, with geometric classification
std::map<std::vector<std::array<double, 3>>, std::pair<int, int>> by_verts(Canon const& c, int d) {
  std::map<i64, std::array<double, 3>> xyz;
  for (auto& e : c.ents[0]) {
    auto& t = c.parts[std::size_t(e.part)].d[0].tags.at("coordinates");
    std::array<double, 3> x{0, 0, 0};
    std::memcpy(x.data(), t.data.data() + std::size_t(e.idx) * t.width, t.width);
    xyz[e.gid] = x;
  }
  std::map<std::vector<std::array<double, 3>>, std::pair<int, int>> m;
  for (auto& e : c.ents[d]) {
    auto& D = c.parts[std::size_t(e.part)].d[d];
    auto i = std::size_t(e.idx);
    std::vector<std::array<double, 3>> v;
    for (int k = 0; k < D.deg; ++k) v.push_back(xyz.at(D.verts[i * std::size_t(D.deg) + std::size_t(k)]));
    std::sort(v.begin(), v.end());
    int cid;
    signed char cd;
    std::memcpy(&cd, D.tags.at("class_dim").data.data() + i, 1);
    std::memcpy(&cid, D.tags.at("class_id").data.data() + i * 4, 4);
    m[v] = {cd, cid};
  }
  return m;
}
std::string gmsh_compare(Canon const& a, Canon const& b) {
  if (a.dim != b.dim || a.family != b.family) return "dimension or family differs";
  for (int d = 0; d <= a.dim; ++d) {
    auto x = by_verts(a, d), y = by_verts(b, d);
    if (x.size() != y.size()) return "number of entities of dimension " + std::to_string(d) + " differs";
    auto j = y.begin();
    for (auto& kv : x) {
      if (kv.first != j->first) return "entities of dimension " + std::to_string(d) + " differ";
      if (kv.second != j->second)
        return "classification of an entity of dimension " + std::to_string(d) + " differs: (" + std::to_string(kv.second.first) + "," +
               std::to_string(kv.second.second) + ") and (" + std::to_string(j->second.first) + "," + std::to_string(j->second.second) + ")";
      ++j;
    }
  }
  return "";
}

struct Images {
  std::vector<PartImg> parts;
  std::vector<std::string> notes;
  explicit Images(int n) : parts(std::size_t(n)), notes(std::size_t(n)) {}
};
void write_mesh(int fmt, std::string const& path, oh::Mesh& m, Program const& p) {
  if (fmt == OSH) oh::binary::write(path, &m);
  if (fmt == VTK) oh::vtk::write_parallel(path, &m, m.dim(), p.get("zip", 1) != 0);
  if (fmt == GMSH) oh::gmsh::write(path, &m);
}
void read_mesh(int fmt, std::string const& path, Env& e, oh::Mesh& m, bool strict) {
  if (fmt == OSH) {
    if (strict)
      oh::binary::read(path, e.world, &m, true);
    else
      m = oh::read_mesh_file(path, e.world);
  }
  if (fmt == VTK) oh::vtk::read_parallel(oh::filesystem::path(path) / "pieces.pvtu", e.world, &m);
  if (fmt == GMSH) m = oh::gmsh::read(path, e.world);
}
char const* ext(int fmt) { return fmt == OSH ? ".osh" : fmt == VTK ? "_vtk" : ".msh"; }
std::string differs(int fmt, std::vector<PartImg> const& a, std::vector<PartImg> const& b) {
  if (fmt == GMSH) return gmsh_compare(canonical(a), canonical(b));
  if (fmt == VTK) return compare(vtk_view(canonical(a)), vtk_view(canonical(b)));
  return compare(canonical(a), canonical(b));
}
void run_ops(Env& e, oh::Mesh& m, Program const& p, std::size_t from, std::size_t to) {
  for (std::size_t k = from; k < to && k < p.ops.size(); ++k) exec_op(e, m, p, p.ops[k]);
}
std::size_t split_at(Program const& p) {  // operations before the write
  for (std::size_t k = 0; k < p.ops.size(); ++k)
    if (p.ops[k].name == "save") return k;
  return p.ops.size();
}

// ---- D12: a written mesh reads back exactly, wherever it is read ----
void round_trip(Program const& p) {
  int n = int(p.get("nranks")), fmt = int(p.get("fmt")), rn = std::max(n, int(p.get("rranks", n)));
  bool strict = p.get("strict") && rn == n && fmt == OSH;
  auto cut = split_at(p);
  Images a(n), a2(n), b(rn), b2(rn);
  fs_reset(soft_faults(p));
  std::string path = std::string("m") + ext(fmt);
  must_run(p, true, n, "writing", [&](Env& e) {
    if (p.get("stale") && fmt != GMSH) {  // an older, different mesh is there already
      auto q = p;
      q.cfg["nx"] = 1 + p.get("nx") % 3;
      q.cfg["partseed"] = p.get("partseed") + 1;
      auto o = make_box(e.world, q);
      add_random_tags(o, 7);
      write_mesh(fmt, path, o, p);
    }
    auto m = make_box(e.world, p);
    run_ops(e, m, p, 0, cut);
    a.parts[std::size_t(e.rank)] = take_image(m);
    write_mesh(fmt, path, m, p);
    auto d = same_part(a.parts[std::size_t(e.rank)], take_image(m));
    if (!d.empty()) violate("file-round-trip", "writing changed the mesh in memory: " + d);
    if (p.get("samejob")) {  // the same job reads what it has just written
      oh::Mesh k(e.lib.get());
      read_mesh(fmt, path, e, k, strict);
      a2.parts[std::size_t(e.rank)] = take_image(k);
    } else {
      run_ops(e, m, p, cut + 1, p.ops.size());
      a2.parts[std::size_t(e.rank)] = take_image(m);
    }
  });
  auto job = p.get("samejob");
  if (job) {
    auto d = differs(fmt, a.parts, a2.parts);
    if (!d.empty()) violate("file-round-trip", "the job that wrote the mesh read back another: " + d);
  }
  if (p.get("faulty") == 0) fs_reset(FsCfg());
  must_run(p, true, rn, "reading", [&](Env& e) {
    oh::Mesh m(e.lib.get());
    read_mesh(fmt, path, e, m, strict);
    b.parts[std::size_t(e.rank)] = take_image(m);
    if (fmt != GMSH && rn == n) {
      write_mesh(fmt, std::string("n") + ext(fmt), m, p);
      if (strict && !job) {  // continuing from the file equals never having stopped
        run_ops(e, m, p, cut + 1, p.ops.size());
        b2.parts[std::size_t(e.rank)] = take_image(m);
      }
    }
  });
  CheckOpts o = box_opts(p);
  if (fmt == VTK) o.ghost_exact = false;  // VTK files do not keep which copy is the owner
  check_parts(b.parts, o, "mesh read by " + std::to_string(rn) + " ranks");
  auto d = differs(fmt, a.parts, b.parts);
  if (!d.empty()) violate("file-round-trip", "the mesh read differs from the mesh written: " + d);
  if (fmt == OSH && rn == n) {
    for (int r = 0; r < n; ++r) {
      auto s = same_part(a.parts[std::size_t(r)], b.parts[std::size_t(r)]);
      if (!s.empty()) violate("file-round-trip", "part " + std::to_string(r) + " read differs from the part written: " + s);
      auto f = "/" + std::to_string(r) + ".osh";
      if (slurp(scratch_root() + "/m.osh" + f) != slurp(scratch_root() + "/n.osh" + f))
        violate("file-round-trip", "writing the mesh just read gives another file for part " + std::to_string(r));
    }
  }
  if (strict && !job)
    for (int r = 0; r < n; ++r) {
      auto s = same_part(a2.parts[std::size_t(r)], b2.parts[std::size_t(r)]);
      if (!s.empty()) violate("restart-differs", "continuing from the file gives rank " + std::to_string(r) + " another mesh: " + s);
    }
  event(canon_hash(canonical(b.parts)));
}
Program gen_io(Rng& r, int fmt, int maxranks, char const* mix, int maxops, double pf) {
  Program p;
  common_cfg(p, r, maxranks, pf);
  if (fmt == GMSH) p.cfg["nranks"] = 1;
  gen_box(p, r, 1);
  p.cfg.erase("time");
  if (r.flip(0.2)) p.cfg["hyper"] = 1, p.cfg["sym"] = 0;
  if (fmt != OSH && p.cfg["dim"] == 1) p.cfg.erase("hyper");
  std::string ops = p.get("hyper") ? "tpbgyRC" : mix;
  p.cfg["fmt"] = fmt;
  gen_ops(p, r, int(r.range(0, maxops)), ops);
  if (fmt == VTK)
    for (auto& op : p.ops) {
      if (op.name == "parting" && op.arg(0) == 1) op.a[0] = 0;  // documented: cannot be read back
      if (op.name == "tags") op.name = "fields", op.a = {r.range(1, 63), r.range(0, 99)};
      if (p.get("hyper") && op.name == "fields") op.a[0] &= ~i64(4);
    }
  if (r.flip(0.5)) p.cfg["zip"] = 0;
  return p;
}
std::map<std::string, std::vector<i64>> io_shrink() {
  auto s = mesh_shrink();
  for (auto k : {"sw", "sr", "ei", "stale", "samejob", "strict", "hyper"}) s[k] = {0};
  s["rranks"] = {1, 2, 3, 4};
  return s;
}
AddScenario d12a({"D12", "osh_round", 4,
    [](Rng& r, u64) {
      auto p = gen_io(r, OSH, 6, "atttffpbgggyRCd", 5, 1.0);
      soft_cfg(p, r);
      p.cfg["strict"] = r.flip(0.5);
      p.cfg["stale"] = r.flip(0.25);
      p.cfg["samejob"] = r.flip(0.2);
      if (r.flip(0.4)) p.cfg["rranks"] = r.range(1, 8);
      if (!p.get("samejob") && r.flip(0.6)) {
        p.ops.push_back({"save", {}});
        gen_ops(p, r, int(r.range(1, 2)), p.get("hyper") ? "pbgy" : "aadpbgyfm");
      }
      return p;
    },
    round_trip, io_shrink()});
AddScenario d12b({"D12", "gmsh_round", 1,
    [](Rng& r, u64) {
      auto p = gen_io(r, GMSH, 1, "aadf", 2, 1.0);
      soft_cfg(p, r);
      p.cfg["rranks"] = i64(1) << r.range(0, 2);
      return p;
    },
    round_trip, io_shrink()});
void txt_round(Program const& p) {
  int n = int(p.get("n")), nc = int(p.get("nc", 1));
  fs_reset(soft_faults(p));
  must_run(p, true, 1, "text arrays", [&](Env&) {
    oh::HostWrite<oh::Real> w(n * nc);
    Rng r(u64(p.get("partseed")));
    for (int i = 0; i < w.size(); ++i) {
      u64 h = r.next();
      double v;
      do {
        std::memcpy(&v, &h, 8);
        h = r.next();
      } while (!std::isfinite(v) || std::fpclassify(v) == FP_SUBNORMAL);
      w[i] = r.flip(0.5) ? v : double(i64(h >> 40)) * 0.01;
    }
    oh::Reals a(w.write());
    oh::write_reals_txt("a.txt", a, nc);
    auto b = oh::HostRead<oh::Real>(oh::read_reals_txt("a.txt", n, nc));
    auto x = oh::HostRead<oh::Real>(a);
    if (b.size() != x.size()) violate("file-round-trip", "text array has another size");
    for (int i = 0; i < b.size(); ++i)
      if (std::memcmp(&b.data()[i], &x.data()[i], 8)) violate("file-round-trip", "text array value " + exact(x[i]) + " reads back as " + exact(b[i]));
  });
}
AddScenario d12c({"D12", "txt_round", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 1, 1.0);
      p.cfg["nranks"] = 1;
      p.cfg["n"] = r.flip(0.1) ? 0 : r.range(1, 3000);
      p.cfg["nc"] = r.range(1, 6);
      p.cfg["partseed"] = r.range(0, 99999);
      soft_cfg(p, r);
      return p;
    },
    txt_round, {{"n", {0, 1, 10, 100}}, {"nc", {1}}, {"sw", {0}}, {"sr", {0}}, {"ei", {0}}, {"poison", {0}}}});

// ---- D13: a failed write is reported ----
void hard_fault(FsCfg& f, Program const& p) {
  i64 at = p.get("at");
  switch (p.get("fk")) {
    case 0: f.fail_write_after = at; break;
    case 1: f.eio_write_at = at; break;
    case 2: f.fail_wopen_at = at; break;
    case 3: f.fail_mkdir_at = at; break;
    case 4: f.fail_close_at = at; break;
  }
}
void write_fails(Program const& p) {
  int n = int(p.get("nranks")), fmt = int(p.get("fmt"));
  Images a(n), b(n);
  auto f = soft_faults(p);
  hard_fault(f, p);
  fs_reset(f);
  std::string path = std::string("m") + ext(fmt);
  i64 lines = 0;
  auto r = simulate(p, true, n, [&](Env& e) {
    if (fmt == TXT) {
      oh::write_reals_txt("m.txt", oh::Reals(int(p.get("nx")) * 300, 0.1, 1.0), 1);
      return;
    }
    auto m = make_box(e.world, p);
    run_ops(e, m, p, 0, p.ops.size());
    if (fmt == PLOT) {
      lines = m.nglobal_ents(m.dim());
      oh::write_scatterplot("m.txt", &m, m.dim(), oh::Reals(m.nelems(), 0.5), oh::Reals(m.nelems() * 2, 0.25), " ");
      return;
    }
    a.parts[std::size_t(e.rank)] = take_image(m);
    if (p.get("pvd")) {
      oh::vtk::Writer w(path, &m, m.dim());
      w.write(0.5);
      w.write(1.5);
    } else
      write_mesh(fmt, path, m, p);
  });
  auto injected = fsst.errors_injected;
  fs_reset(FsCfg());
  if (injected && !r.failed) violate("silent-write-failure", "a file could not be written completely but the job ended without an error");
  if (!injected && r.failed) violate("exception", "writing failed without an injected error: " + r.what);
  if (!injected && fmt == PLOT) {
    auto t = slurp("m.txt");
    if (i64(std::count(t.begin(), t.end(), '\n')) != lines) violate("file-round-trip", "the plot has not one line for each of the " + std::to_string(lines) + " elements");
  }
  if (!injected && fmt != TXT && fmt != PLOT && !p.get("pvd")) {
    must_run(p, true, n, "reading", [&](Env& e) {
      oh::Mesh m(e.lib.get());
      read_mesh(fmt, path, e, m, false);
      b.parts[std::size_t(e.rank)] = take_image(m);
    });
    auto d = differs(fmt, a.parts, b.parts);
    if (!d.empty()) violate("file-round-trip", "the mesh read differs from the mesh written: " + d);
  }
  event(mix(injected, r.failed));
}
i64 pick_at(Rng& r, int fk) {
  if (fk == 0) return r.flip(0.5) ? r.range(0, 400) : r.flip(0.5) ? r.range(0, 20000) : r.range(0, 200000);
  return r.flip(0.7) ? r.range(0, 6) : r.range(0, 40);
}
AddScenario d13({"D13", "write_fault", 1,
    [](Rng& r, u64) {
      int fmt = int(r.of(std::vector<int>{OSH, OSH, OSH, VTK, VTK, GMSH, TXT, PLOT}));
      auto p = gen_io(r, fmt, 5, "tfpg", 3, 0.8);
      if (fmt == TXT) p.cfg["nranks"] = 1;
      if (fmt == VTK && r.flip(0.5)) p.cfg["pvd"] = 1;
      soft_cfg(p, r);
      p.cfg["fk"] = r.range(0, 4);
      p.cfg["at"] = pick_at(r, int(p.cfg["fk"]));
      return p;
    },
    write_fails, io_shrink()});

// ---- D14: an incomplete file is never taken for a mesh ----
std::vector<std::string> files_of(int fmt, int n) {
  std::vector<std::string> v;
  for (int r = 0; r < n; ++r)
    v.push_back(fmt == OSH ? "m.osh/" + std::to_string(r) + ".osh" : "m_vtk/pieces/piece_" + std::to_string(r) + ".vtu");
  if (fmt == OSH) v.push_back("m.osh/nparts"), v.push_back("m.osh/version");
  if (fmt == VTK) v.push_back("m_vtk/pieces.pvtu");
  return v;
}
void incomplete(Program const& p) {
  int n = int(p.get("nranks")), fmt = int(p.get("fmt")), rn = std::max(n, int(p.get("rranks", n))), how = int(p.get("how"));
  int older = how == 6 ? int(p.get("older")) : 0;  // ranks that wrote an older mesh to the same place
  rn = std::max(rn, older);
  Images a(n), b(rn), o(std::max(older, 1));
  FsCfg f;
  if (how == 0 || how == 6) f.crash_at = p.get("at"), f.crash_torn = p.get("torn") != 0;
  if (how == 3) hard_fault(f, p);
  fs_reset(f);
  std::string path = std::string("m") + ext(fmt);
  bool started = false;
  int images = 0;
  if (older) {
    fs_reset(FsCfg());
    auto q = p;
    q.cfg["nx"] = 1 + p.get("nx") % 4;
    q.cfg["region"] = 0;
    auto w0 = simulate(q, false, older, [&](Env& e) {
      auto m = make_box(e.world, q);
      o.parts[std::size_t(e.rank)] = take_image(m);
      write_mesh(fmt, path, m, q);
    });
    if (w0.failed) violate("exception", "writing failed: " + w0.what);
    fs_reset(f);
    fault_fired("written_over_older_mesh");
  }
  auto w = simulate(p, true, n, [&](Env& e) {
    auto m = make_box(e.world, p);
    run_ops(e, m, p, 0, p.ops.size());
    a.parts[std::size_t(e.rank)] = take_image(m);
    if (++images == n) started = true;
    write_mesh(fmt, path, m, p);
  });
  if (how != 0 && how != 3 && how != 6 && w.failed) violate("exception", "writing failed: " + w.what);
  if (how == 1) {  // lose the tail of one file
    auto fl = files_of(fmt, n);
    auto path1 = scratch_root() + "/" + fl[std::size_t(p.get("which")) % fl.size()];
    auto c = slurp(path1);
    auto keep = std::size_t(double(c.size()) * double(p.get("frac")) / 10000.0);
    if (p.get("frac") >= 10000) keep = c.size() - std::min<std::size_t>(c.size(), std::size_t(p.get("frac") - 10000));
    if (truncate(path1.c_str(), long(keep)) != 0) harness_error("truncate");
    fault_fired("truncated_file");
  }
  if (how == 4) {  // one file of the set is missing
    auto fl = files_of(fmt, n);
    ::unlink((scratch_root() + "/" + fl[std::size_t(p.get("which")) % fl.size()]).c_str());
    fault_fired("missing_file");
  }
  FsCfg g = soft_faults(p);
  if (how == 2) g.eio_read_at = p.get("at");
  if (how == 5) g.fail_open_at = p.get("at");
  fs_reset(g);
  bool done = false;
  int ended = 0;
  auto r = simulate(p, true, rn, [&](Env& e) {
    oh::Mesh m(e.lib.get());
    read_mesh(fmt, path, e, m, p.get("strict") && rn == n);
    b.parts[std::size_t(e.rank)] = take_image(m);
    if (++ended == rn) done = true;
  });
  auto injected = fsst.errors_injected;
  fs_reset(FsCfg());
  if (!r.failed && done) {
    if (!started && !older) violate("wrong-mesh-accepted", "a mesh was read although none had been written");
    auto d = started ? differs(fmt, a.parts, b.parts) : std::string("none");
    if (!d.empty() && older) d = differs(fmt, o.parts, b.parts);
    if (!d.empty()) violate("wrong-mesh-accepted", "an incomplete file was read as another mesh: " + d);
  } else if (how == 2 || how == 5) {
    if (!injected) violate("exception", "reading failed without an injected error: " + r.what);
  } else if (how == 0 || how == 3) {
    if (!w.crashed && !w.failed) violate("exception", "reading a completely written mesh failed: " + r.what);
  }
  probe(r.failed ? "incomplete_rejected" : "incomplete_accepted_equal");
  event(mix(u64(r.failed), injected));
}
AddScenario d14({"D14", "incomplete", 1,
    [](Rng& r, u64) {
      int fmt = r.flip(0.7) ? OSH : VTK;
      auto p = gen_io(r, fmt, 5, "tfpg", 3, 0.8);
      p.cfg["how"] = r.of(std::vector<int>{0, 0, 1, 1, 1, 2, 3, 4, 5});
      if (fmt == OSH && r.flip(0.25)) {
        p.cfg["how"] = 6;
        do p.cfg["older"] = r.range(1, 6);
        while (p.cfg["older"] == p.cfg["nranks"]);
      }
      p.cfg["fk"] = r.range(0, 4);
      switch (p.cfg["how"]) {
        case 6:
        case 0: p.cfg["at"] = r.range(0, 12 + 8 * p.cfg["nranks"]); p.cfg["torn"] = r.flip(0.5); break;
        case 1:
          p.cfg["which"] = r.range(0, 9);
          p.cfg["frac"] = r.flip(0.6) ? r.range(0, 9999) : 10000 + r.range(1, 64);
          break;
        case 2: p.cfg["at"] = r.range(0, 12); break;
        case 3: p.cfg["at"] = pick_at(r, int(p.cfg["fk"])); break;
        case 4: p.cfg["which"] = r.range(0, 9); break;
        case 5: p.cfg["at"] = r.range(0, 10); break;
      }
      if (r.flip(0.3)) soft_cfg(p, r);
      p.cfg["strict"] = r.flip(0.3);
      if (r.flip(0.3)) p.cfg["rranks"] = r.range(1, 6);
      return p;
    },
    incomplete, io_shrink()});

// ---- D15: VTK output ----
AddScenario d15a({"D15", "vtk_round", 2,
    [](Rng& r, u64) {
      auto p = gen_io(r, VTK, 6, "atffpbggyRCd", 5, 1.0);
      soft_cfg(p, r);
      p.cfg["stale"] = r.flip(0.2);
      p.cfg["samejob"] = r.flip(0.4);
      if (r.flip(0.3)) p.cfg["rranks"] = r.range(1, 8);
      return p;
    },
    round_trip, io_shrink()});
double step_time(Program const& p, int k) { return 0.25 * double(p.get("t0")) + double(k) * (0.1 + 0.3 * double(p.get("dt", 1))); }
// A time series, possibly interrupted by a crash, then restarted.
void time_series(Program const& p) {
  int n = int(p.get("nranks")), k1 = int(p.get("k1")), k2 = int(p.get("k2"));
  int restart = int(p.get("restart"));  // the step the second job starts from
  std::vector<std::vector<PartImg>> img(std::size_t(k1 + k2), std::vector<PartImg>(std::size_t(n)));
  std::vector<int> ended(std::size_t(k1 + k2), 0);
  int opened = 0;
  FsCfg f = soft_faults(p);
  if (p.get("crash")) f.crash_at = p.get("at"), f.crash_torn = p.get("torn") != 0;
  fs_reset(f);
  auto job = [&](Env& e, int from, int count, double rtime) {
    auto m = make_box(e.world, p);
    run_ops(e, m, p, 0, std::size_t(from) % (p.ops.size() + 1));
    oh::vtk::Writer w("out", &m, m.dim(), rtime, p.get("zip", 1) != 0);
    if (++opened == n) probe("writer_opened");
    for (int k = from; k < from + count; ++k) {
      if (k > from) run_ops(e, m, p, std::size_t(k) % (p.ops.size() + 1), std::size_t(k) % (p.ops.size() + 1) + 1);
      img[std::size_t(k)][std::size_t(e.rank)] = take_image(m);
      w.write(k, step_time(p, k), oh::vtk::get_all_vtk_tags(&m, m.dim()));
      ++ended[std::size_t(k)];
    }
  };
  auto r1 = simulate(p, true, n, [&](Env& e) { job(e, 0, k1, -1e300); });
  if (r1.failed) violate("exception", "writing a time series failed: " + r1.what);
  bool crashed = r1.crashed, open_done = opened == n;
  int done = 0;  // steps every rank has finished
  while (done < k1 && ended[std::size_t(done)] == n) ++done;
  fs_reset(soft_faults(p));
  auto check_series = [&](std::vector<int> const& must, std::vector<int> const& may, char const* when) {
    std::vector<oh::Real> times;
    std::vector<oh::filesystem::path> paths;
    auto r = simulate(p, false, 1, [&](Env&) { oh::vtk::read_pvd("out/steps.pvd", &times, &paths); });
    if (r.failed) violate("time-series", std::string(when) + ": the series cannot be read: " + r.what);
    std::size_t i = 0;
    std::vector<int> got;
    for (; i < must.size(); ++i) {
      if (i >= times.size()) violate("time-series", std::string(when) + ": step " + std::to_string(must[i]) + " is missing from the series");
      got.push_back(must[i]);
    }
    std::size_t j = 0;
    for (; i < times.size(); ++i, ++j) {
      if (j >= may.size()) violate("time-series", std::string(when) + ": the series lists more steps than were written");
      got.push_back(may[j]);
    }
    for (i = 0; i < times.size(); ++i) {
      auto want = step_time(p, got[i]);
      if (times[i] != want) violate("time-series", std::string(when) + ": entry " + std::to_string(i) + " has time " + exact(times[i]) + ", expected " + exact(want));
      auto wp = "out/steps/step_" + std::to_string(got[i]) + "/pieces.pvtu";
      if (paths[i].string() != wp) violate("time-series", std::string(when) + ": entry " + std::to_string(i) + " names " + paths[i].string());
    }
    for (i = 0; i < got.size(); ++i) {
      std::vector<PartImg> b(static_cast<std::size_t>(n));
      must_run(p, true, n, "reading a step", [&](Env& e) {
        oh::Mesh m(e.lib.get());
        oh::vtk::read_parallel(paths[i], e.world, &m);
        b[std::size_t(e.rank)] = take_image(m);
      });
      auto d = compare(vtk_view(canonical(img[std::size_t(got[i])])), vtk_view(canonical(b)));
      if (!d.empty()) violate("time-series", std::string(when) + ": step " + std::to_string(got[i]) + " reads back differently: " + d);
    }
  };
  std::vector<int> must, may;
  if (!crashed) {
    for (int k = 0; k < k1; ++k) must.push_back(k);
    check_series(must, {}, "after the first job");
  } else if (open_done) {  // finished steps are listed; whatever is listed is complete
    for (int k = 0; k < done; ++k) must.push_back(k);
    if (done < k1) may.push_back(done);
    check_series(must, may, "after the crash");
    probe("series_checked_after_crash");
  }
  if (k2 == 0) return;
  if (crashed && !open_done) return;
  // the second job continues from a step that was reached
  int from = std::min(restart, done);
  opened = 0;
  must_run(p, true, n, "continuing a time series", [&](Env& e) { job(e, from, std::min(k2, k1 + k2 - from), from > 0 ? (step_time(p, from - 1) + step_time(p, from)) / 2 : step_time(p, from)); });
  must.clear();
  for (int k = 0; k < from + std::min(k2, k1 + k2 - from); ++k) must.push_back(k);
  check_series(must, {}, "after the restart");
}
AddScenario d15b({"D15", "time_series", 1,
    [](Rng& r, u64) {
      auto p = gen_io(r, VTK, 4, "fpbgd", 3, 1.0);
      soft_cfg(p, r);
      p.cfg["k1"] = r.range(1, 4);
      p.cfg["k2"] = r.range(0, 3);
      p.cfg["t0"] = r.range(-3, 5);
      p.cfg["dt"] = r.range(0, 7);
      p.cfg["restart"] = r.range(0, p.cfg["k1"]);
      p.cfg["crash"] = r.flip(0.5);
      p.cfg["at"] = r.range(3, 60);
      p.cfg["torn"] = r.flip(0.5);
      return p;
    },
    time_series, io_shrink()});
}  // namespace
