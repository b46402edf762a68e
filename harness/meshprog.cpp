#include "meshprog.hpp"
#include <Omega_h_box.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_coarsen.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_conserve.hpp>
#include <Omega_h_for.hpp>
#include <Omega_h_histogram.hpp>
#include <Omega_h_laplace.hpp>
#include <Omega_h_bbox.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_owners.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_recover.hpp>
#include <Omega_h_refine.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_swap.hpp>
#include <algorithm>
#include <cmath>
#include <sstream>

using sim::violate;

std::string exact(double v) {
  char b[64];
  std::snprintf(b, sizeof b, "%a", v);
  return b;
}
// The eigendecomposition rejects some nearly isotropic tensors, whatever the
// number of ranks: such inputs decide nothing.
bool input_rejected(Trace const& t) {
  bool r = t.failed && t.what.find("Omega_h_eigen.hpp") != std::string::npos;
  if (r) sim::probe("input-rejected");
  return r;
}
bool benign_stall(std::string const& w) {
  return w.find("stalled") != std::string::npos || w.find("probably unable to satisfy") != std::string::npos ||
         w.find("minimum element quality") != std::string::npos || w.find("maximum edge length") != std::string::npos;
}

oh::AdaptOpts make_opts(oh::Mesh& m, Program const& p) {
  oh::AdaptOpts o(&m);
  o.verbosity = p.get("verbose") == 3 ? oh::EXTRA_STATS : p.get("verbose") == 2 ? oh::EACH_REBUILD : p.get("verbose") == 1 ? oh::EACH_ADAPT : oh::SILENT;
  if (p.get("flip")) o.should_prevent_coarsen_flip = true;
  if (p.get("noswap")) o.should_swap = false;
  if (p.get("lenient") && m.dim() > 1) o.min_quality_allowed = 0.1, o.min_quality_desired = 0.2;
  if (p.get("tight")) {
    o.max_length_desired = p.get("tight") == 1 ? 1.3 : 1.5;
    o.max_length_allowed = p.get("tight") == 3 ? 1.9 : o.max_length_desired;
    o.min_length_desired = 0.65;
  }
  if (p.get("nsliver")) o.nsliver_layers = oh::Int(p.get("nsliver"));
  if (m.has_tag(0, "u")) o.xfer_opts.type_map["u"] = OMEGA_H_LINEAR_INTERP;
  int d = m.dim();
  auto tol = [&](double fl) {
    static double const v[] = {0.9, 0.15, 0.02, 0.3};
    return oh::VarCompareOpts{p.get("dtol") == 4 ? oh::VarCompareOpts::NONE : oh::VarCompareOpts::RELATIVE, v[p.get("dtol") & 3], fl};
  };
  if (m.has_tag(d, "density")) {
    o.xfer_opts.type_map["density"] = OMEGA_H_CONSERVE;
    o.xfer_opts.integral_map["density"] = "mass";
    o.xfer_opts.integral_diffuse_map["mass"] = tol(0.0);
  }
  if (m.has_tag(d, "dens3")) {
    o.xfer_opts.type_map["dens3"] = OMEGA_H_CONSERVE;
    o.xfer_opts.integral_map["dens3"] = "mass3";
    o.xfer_opts.integral_diffuse_map["mass3"] = tol(0.05);
  }
  if (m.has_tag(0, "velocity")) {
    o.xfer_opts.type_map["velocity"] = OMEGA_H_MOMENTUM_VELOCITY;
    o.xfer_opts.velocity_density_map["velocity"] = "density";
    o.xfer_opts.velocity_momentum_map["velocity"] = "momentum";
    o.xfer_opts.integral_diffuse_map["momentum"] = tol(0.1);
  }
  if (m.has_tag(d, "pw")) o.xfer_opts.type_map["pw"] = OMEGA_H_POINTWISE;
  if (m.has_tag(d, "dens2")) o.xfer_opts.type_map["dens2"] = OMEGA_H_DENSITY;
  if (m.has_tag(d, "color")) o.xfer_opts.type_map["color"] = OMEGA_H_INHERIT;
  if (m.has_tag(0, "w")) o.xfer_opts.type_map["w"] = OMEGA_H_LINEAR_INTERP;
  if (m.has_tag(0, "met2")) o.xfer_opts.type_map["met2"] = OMEGA_H_METRIC;
  return o;
}

void add_fields(oh::Mesh& m, int which, u64 seed) {
  int dim = m.dim();
  auto xh = oh::HostRead<oh::Real>(m.coords());
  if ((which & 1) && !m.has_tag(0, "u")) {
    oh::HostWrite<oh::Real> u(m.nverts() * 2);
    for (int v = 0; v < m.nverts(); ++v) {
      double a = 1.5, b = -0.25;
      for (int k = 0; k < dim; ++k) a += (k + 1) * xh[v * dim + k], b += (2.0 - k) * xh[v * dim + k];
      u[2 * v] = a;
      u[2 * v + 1] = b;
    }
    m.add_tag(0, "u", 2, oh::Reals(u.write()));
  }
  auto g = oh::HostRead<oh::GO>(m.globals(dim));
  auto elem_field = [&](char const* name, int nc, u64 salt, double lo, double hi) {
    if (m.has_tag(dim, name)) return;
    oh::HostWrite<oh::Real> u(m.nelems() * nc);
    for (int e = 0; e < m.nelems(); ++e)
      for (int k = 0; k < nc; ++k) u[e * nc + k] = lo + (hi - lo) * hash01(seed + salt + u64(k) * 97, u64(g[e]));
    m.add_tag(dim, name, nc, oh::Reals(u.write()));
  };
  if (which & 2) elem_field("density", 1, 1, 0.5, 2.0);
  if ((which & 4) && m.has_tag(dim, "density") && !m.has_tag(0, "velocity")) {
    oh::HostWrite<oh::Real> u(m.nverts() * dim);
    auto gv = oh::HostRead<oh::GO>(m.globals(0));
    for (int v = 0; v < m.nverts(); ++v)
      for (int k = 0; k < dim; ++k) u[v * dim + k] = 0.5 + hash01(seed + 5 + u64(k), u64(gv[v]));
    m.add_tag(0, "velocity", dim, oh::Reals(u.write()));
  }
  if ((which & 256)) elem_field("dens3", 2, 31, -0.5, 1.5);
  if ((which & 512) && m.has_tag(0, "velocity") && !m.has_tag(0, "momentum_velocity_fixed")) {
    // velocity components held on some sides of the domain, constant there
    Rng r(seed + 3);
    int n = int(r.range(1, 2));
    for (int q = 0; q < n; ++q) {
      static int const ids[4][6] = {{}, {0, 2, 0, 2, 0, 2}, {1, 3, 5, 7, 1, 5}, {4, 10, 12, 14, 16, 22}};
      oh::ClassPair cp{dim - 1, ids[dim][r.below(6)]};
      int comp = int(r.below(u64(dim)));
      auto before = m.has_tag(0, "momentum_velocity_fixed") ? m.get_array<oh::I8>(0, "momentum_velocity_fixed") : oh::Read<oh::I8>(m.nverts(), oh::I8(0));
      oh::fix_momentum_velocity_verts(&m, {cp}, comp);
      auto fl = oh::HostRead<oh::I8>(m.get_array<oh::I8>(0, "momentum_velocity_fixed"));
      auto v = oh::HostRead<oh::Real>(m.get_array<oh::Real>(0, "velocity"));
      oh::HostWrite<oh::Real> w(v.size());
      for (int i = 0; i < v.size(); ++i) w[i] = ((fl[i / dim] >> (i % dim)) & 1) ? 2.0 + (i % dim) : v[i];
      m.set_tag(0, "velocity", oh::Reals(w.write()));
    }
  }
  if (which & 8) elem_field("pw", 1 + int(seed % 3), 11, -1, 1);
  if (which & 16) elem_field("dens2", 1, 13, 1.0, 3.0);
  if ((which & 64) && !m.has_tag(0, "w")) {
    auto gv = oh::HostRead<oh::GO>(m.globals(0));
    oh::HostWrite<oh::Real> u(m.nverts());
    for (int v = 0; v < m.nverts(); ++v) u[v] = hash01(seed + 23, u64(gv[v])) * 10 - 3;
    m.add_tag(0, "w", 1, oh::Reals(u.write()));
  }
  if ((which & 128) && !m.has_tag(0, "met2")) {
    auto gv = oh::HostRead<oh::GO>(m.globals(0));
    oh::HostWrite<oh::Real> u(m.nverts());
    for (int v = 0; v < m.nverts(); ++v) u[v] = 0.5 + 8 * hash01(seed + 29, u64(gv[v]));
    m.add_tag(0, "met2", 1, oh::Reals(u.write()));
  }
  if ((which & 32) && !m.has_tag(dim, "color"))
    for (int d = 0; d <= dim; ++d) {
      auto gd = oh::HostRead<oh::GO>(m.globals(d));
      oh::HostWrite<oh::I32> c(m.nents(d));
      for (int i = 0; i < c.size(); ++i) c[i] = oh::I32(sim::mix(seed + 17 + u64(d), u64(gd[i])) % 100);
      m.add_tag(d, "color", 1, oh::Read<oh::I32>(c.write()));
    }
}
template <class T>
static void rnd_tag(oh::Mesh& m, int d, std::string const& name, int nc, u64 salt) {
  auto gd = oh::HostRead<oh::GO>(m.globals(d));
  oh::HostWrite<T> c(m.nents(d) * nc);
  for (int i = 0; i < m.nents(d); ++i)
    for (int k = 0; k < nc; ++k) {
      u64 h = sim::mix(salt + u64(k), u64(gd[i]));
      c[i * nc + k] = std::is_floating_point<T>::value ? T(double(i64(h >> 3)) * 1e-12 - 1e5) : T(h >> 5);
    }
  if (m.has_tag(d, name)) m.remove_tag(d, name);
  m.add_tag<T>(d, name, nc, oh::Read<T>(c.write()));
}
void add_random_tags(oh::Mesh& m, u64 seed) {
  Rng r(seed);
  int n = int(r.range(1, 4));
  for (int k = 0; k < n; ++k) {
    int d = int(r.range(0, m.dim())), nc = int(r.range(1, 4));
    std::string name = "t" + std::to_string(k) + std::string(r.below(12), 'x');
    u64 salt = r.next();
    switch (r.below(4)) {
      case 0: rnd_tag<oh::I8>(m, d, name, nc, salt); break;
      case 1: rnd_tag<oh::I32>(m, d, name, nc, salt); break;
      case 2: rnd_tag<oh::I64>(m, d, name, nc, salt); break;
      default: rnd_tag<oh::Real>(m, d, name, nc, salt);
    }
  }
}

void set_metric_target(oh::Mesh& m, int kind, u64 seed, int strength) {
  int dim = m.dim();
  bool aniso = dim > 1 && (kind & 24);
  bool rotated = dim > 1 && (kind & 16);
  kind &= 7;
  m.set_parting(OMEGA_H_GHOSTED);
  for (auto nm : {"metric", "target_metric"})
    if (m.has_tag(0, nm)) m.remove_tag(0, nm);
  if (aniso)
    oh::add_implied_metric_tag(&m);
  else
    oh::add_implied_isos_tag(&m);
  m.set_parting(OMEGA_H_ELEM_BASED);
  // a size field in terms of position only
  auto x = oh::HostRead<oh::Real>(m.coords());
  int nc = aniso ? (dim * (dim + 1)) / 2 : 1;
  oh::HostWrite<oh::Real> t(m.nverts() * nc);
  static double const base[] = {0.9, 0.7, 0.5, 0.38, 1.4};
  double h0 = base[strength % 5];
  double cx = hash01(seed, 1), cy = hash01(seed, 2), cz = hash01(seed, 3);
  for (int v = 0; v < m.nverts(); ++v) {
    double px = x[v * dim], py = dim > 1 ? x[v * dim + 1] : 0, pz = dim > 2 ? x[v * dim + 2] : 0;
    double h = h0;
    switch (kind) {
      case 1: h = h0 * (0.6 + 0.9 * px); break;
      case 2: h = h0 * (0.5 + std::fabs(px - cx) + std::fabs(py - cy)); break;
      case 3: {
        double d2 = (px - cx) * (px - cx) + (py - cy) * (py - cy) + (dim > 2 ? (pz - cz) * (pz - cz) : 0);
        h = h0 * (0.45 + 1.2 * std::sqrt(d2));
        break;
      }
      case 4: h = h0 * (px < cx ? 0.7 : 1.6); break;
      default: break;
    }
    double l = 1.0 / (h * h);
    if (!aniso)
      t[v] = l;
    else if (rotated) {  // principal directions turning with position
      double a = 6.0 * hash01(seed, 4) + px + 0.7 * py, b = 3.0 * hash01(seed, 5) + 0.5 * pz;
      double hs[3] = {h, h * (1.3 + hash01(seed, 6)), h * 1.2};
      auto put = [&](auto tensor) {
        auto sv = oh::symm2vector(tensor);
        for (int k = 0; k < nc; ++k) t[v * nc + k] = sv[k];
      };
      double ca = std::cos(a), sa = std::sin(a), cb = std::cos(b), sb = std::sin(b);
      if (dim == 2) {
        oh::Matrix<2, 2> r;
        r[0] = oh::vector_2(ca, sa), r[1] = oh::vector_2(-sa, ca);
        put(oh::compose_metric(r, oh::vector_2(hs[0], hs[1])));
      } else {
        oh::Matrix<3, 3> r;
        r[0] = oh::vector_3(ca * cb, sa * cb, sb), r[1] = oh::vector_3(-sa, ca, 0), r[2] = oh::vector_3(-ca * sb, -sa * sb, cb);
        put(oh::compose_metric(r, oh::vector_3(hs[0], hs[1], hs[2])));
      }
    } else {
      double f[3] = {1.0, 0.5, 0.7};
      for (int k = 0; k < nc; ++k) t[v * nc + k] = k < dim ? l * f[k] : 0.0;
    }
  }
  m.add_tag(0, "target_metric", nc, oh::Reals(t.write()));
}

static std::string stats_note(oh::Mesh& m) {
  std::string s;
  for (int d = 0; d <= m.dim(); ++d) s += std::to_string(m.nglobal_ents(d)) + " ";
  if (m.has_tag(0, "metric")) s += exact(m.min_quality()) + " " + exact(m.max_length());
  return s;
}

template <class T>
static void scramble_then_sync(oh::Mesh& m, int d, std::string const& name, int nc, bool async) {
  auto a = oh::HostRead<T>(m.get_array<T>(d, name));
  auto own = oh::HostRead<oh::I8>(m.owned(d));
  oh::HostWrite<T> w(a.size());
  for (int i = 0; i < a.size(); ++i) w[i] = own[i / nc] ? a[i] : T(77);
  oh::Read<T> bad(w.write());
  if (async) {
    auto f = m.isync_array(d, bad, nc);
    int polls = 0;
    while (!f.completed() && ++polls < 100) {
    }
    m.set_tag(d, name, f.get());
  } else {
    m.set_tag(d, name, bad);
    m.sync_tag(d, name);
  }
}

// Adaptation needs at least one element on every rank (known finding
// "empty-rank"); decided from global quantities so that every rank count
// takes the same branch.
static bool ready_to_adapt(oh::Mesh& m, Program const& p) {
  if (p.get("empty_ok", 1)) return true;
  if (m.nglobal_ents(m.dim()) < 2 * p.get("nranks", 1)) return false;
  auto c = m.comm();
  if (c->allreduce(oh::I64(m.nelems()), OMEGA_H_MIN) == 0) repartition(m, 0, 1);
  return true;
}
// programs stay affordable: no refinement that would give a large mesh
static bool too_big(oh::Mesh& m, double f) {
  return double(m.nglobal_ents(m.dim())) * std::pow(std::max(1.0, 1.0 / f), m.dim()) > (m.dim() == 3 ? 4000 : 6000);
}
bool empty_rank_abort(std::string const& what) {
  return what.find("b != 0") != std::string::npos && what.find("Omega_h_scalar.hpp") != std::string::npos;
}
static double worst(oh::Mesh& m, oh::Reals a, bool max) {
  double v = max ? -1e300 : 1e300;
  auto h = oh::HostRead<oh::Real>(a);
  for (int i = 0; i < h.size(); ++i) v = max ? std::max(v, h[i]) : std::min(v, h[i]);
  return m.comm()->allreduce(v, max ? OMEGA_H_MAX : OMEGA_H_MIN);
}
static bool same_array(oh::Reals a, oh::Reals b) {
  auto x = oh::HostRead<oh::Real>(a), y = oh::HostRead<oh::Real>(b);
  if (x.size() != y.size()) return false;
  for (int i = 0; i < x.size(); ++i)
    if (std::memcmp(&x.data()[i], &y.data()[i], 8)) return false;
  return true;
}
// one adaptation, with what it promises checked
static bool adapt_once(oh::Mesh& m, oh::AdaptOpts const& o, Program const& p) {
  if (!p.get("strict")) return oh::adapt(&m, o);
  double q0 = worst(m, oh::measure_qualities(&m), false), l0 = worst(m, oh::measure_edges_metric(&m), true);
  m.ask_qualities(), m.ask_lengths(), m.ask_sizes();
  auto before = take_image(m);
  bool did = oh::adapt(&m, o);
  auto q = oh::measure_qualities(&m), l = oh::measure_edges_metric(&m);
  double q1 = worst(m, q, false), l1 = worst(m, l, true), s1 = worst(m, l, false);
  if (!did) {
    auto d = same_part(before, take_image(m));
    if (!d.empty()) violate("adapt-result", "adapt reported nothing to do but changed the mesh: " + d);
    if (q1 < o.min_quality_desired || l1 > o.max_length_desired || s1 < o.min_length_desired)
      violate("adapt-result", "adapt reported nothing to do but quality is " + exact(q1) + " and lengths are " + exact(s1) + " to " + exact(l1));
  } else {
    if (q1 < std::min(q0, o.min_quality_allowed) - 1e-9) violate("quality", "adaptation lowered the worst quality from " + exact(q0) + " to " + exact(q1));
    if (l1 > std::max(l0, o.max_length_allowed) + 1e-9) violate("length", "adaptation raised the longest edge from " + exact(l0) + " to " + exact(l1));
    if (m.dim() == 1 && o.should_refine && l1 > o.max_length_desired + 1e-9) violate("length", "an edge of length " + exact(l1) + " was left unrefined");
  }
  if (!same_array(m.ask_qualities(), q)) violate("stale-cache", "stored element qualities differ from measured ones");
  if (!same_array(m.ask_lengths(), l)) violate("stale-cache", "stored edge lengths differ from measured ones");
  if (!same_array(m.ask_sizes(), oh::measure_elements_real(&m))) violate("stale-cache", "stored element sizes differ from measured ones");
  return did;
}
// displacements of the interior vertices, a function of global number only
static oh::Reals interior_moves(oh::Mesh& m, u64 seed, double size) {
  int dim = m.dim();
  auto cd = oh::HostRead<oh::I8>(m.get_array<oh::I8>(0, "class_dim"));
  auto g = oh::HostRead<oh::GO>(m.globals(0));
  oh::HostWrite<oh::Real> w(m.nverts() * dim);
  for (int v = 0; v < m.nverts(); ++v)
    for (int k = 0; k < dim; ++k) w[v * dim + k] = cd[v] == dim ? size * (2 * hash01(seed + u64(k), u64(g[v])) - 1) : 0.0;
  return w.write();
}
static double shortest_edge(oh::Mesh& m) { return worst(m, oh::measure_edges_real(&m), false); }
// interior vertices displaced as far as leaves every element a tenth of its size
static void jiggle(oh::Mesh& m, u64 seed, double amp) {
  auto x = m.coords();
  auto old = oh::measure_elements_real(&m);
  auto d = interior_moves(m, seed, amp * shortest_edge(m));
  for (int k = 0; k < 6; ++k) {
    m.set_coords(oh::add_each(x, d));
    auto now = oh::HostRead<oh::Real>(oh::measure_elements_real(&m));
    auto was = oh::HostRead<oh::Real>(old);
    int bad = 0;
    for (int i = 0; i < now.size(); ++i) bad += now[i] < 0.1 * was[i];
    if (!m.comm()->allreduce(bad, OMEGA_H_MAX)) return;
    d = oh::multiply_each_by(d, 0.5);
  }
  m.set_coords(x);
}
// recovery by fitting needs an interior vertex, and takes a bounded number of
// elements around a vertex (MaxFitPoints)
static bool can_fit(oh::Mesh& m) {
  if (!oh::has_interior_verts(&m)) return false;
  int dim = m.dim(), worst_n = 0;
  auto cd = oh::HostRead<oh::I8>(m.get_array<oh::I8>(0, "class_dim"));
  auto a2ab = oh::HostRead<oh::LO>(m.ask_up(0, dim).a2ab);
  for (int v = 0; v < m.nverts(); ++v)
    if (cd[v] == dim) worst_n = std::max(worst_n, a2ab[v + 1] - a2ab[v]);
  static int const limit[] = {0, 6, 18, 72};
  return m.comm()->allreduce(worst_n, OMEGA_H_MAX) <= limit[dim];
}
static void store(oh::Mesh& m, int d, std::string const& name, oh::Reals a) {
  if (m.has_tag(d, name)) m.remove_tag(d, name);
  int nc = m.comm()->allreduce(m.nents(d) ? a.size() / m.nents(d) : 0, OMEGA_H_MAX);
  m.add_tag(d, name, nc, a);
}
std::string exec_op(Env& e, oh::Mesh& m, Program const& p, Op const& op) {
  auto const& n = op.name;
  bool adapts = n == "adapt" || n == "direct" || n == "refine" || n == "coarsen" || n == "swap" || n == "warp" || n == "gentarget";
  if (adapts && !ready_to_adapt(m, p)) return "skipped";
  if (n == "refine" && too_big(m, 0.6)) return "too big";
  if (n == "direct" && too_big(m, double(op.arg(0, 130)) / 100.0)) return "too big";
  if (n == "adapt") {  // kind seed strength maxit
    set_metric_target(m, int(op.arg(0)), u64(op.arg(1)), int(op.arg(2)));
    auto o = make_opts(m, p);
    std::string note;
    try {
      int it = 0;
      while (it++ < op.arg(3, 3) && oh::approach_metric(&m, o)) {
        bool did = adapt_once(m, o, p);
        note += did ? "A" : "n";
      }
    } catch (oh::exception const& ex) {
      if (!benign_stall(ex.what())) throw;
      note += "stalled";
    }
    m.set_parting(OMEGA_H_ELEM_BASED);
    return note + " " + stats_note(m);
  }
  if (n == "direct") {  // one adapt to a scaled implied metric: factor in percent
    m.set_parting(OMEGA_H_GHOSTED);
    for (auto nm : {"metric", "target_metric"})
      if (m.has_tag(0, nm)) m.remove_tag(0, nm);
    oh::Reals met = op.arg(1) && m.dim() > 1 ? oh::get_implied_metrics(&m) : oh::get_implied_isos(&m);
    met = oh::multiply_each_by(met, oh::metric_eigenvalue_from_length(double(op.arg(0, 130)) / 100.0));
    oh::add_metric_tag(&m, met);
    m.set_parting(OMEGA_H_ELEM_BASED);
    auto o = make_opts(m, p);
    bool did = adapt_once(m, o, p);
    m.set_parting(OMEGA_H_ELEM_BASED);
    return std::string(did ? "A " : "n ") + stats_note(m);
  }
  if (n == "refine" || n == "coarsen" || n == "swap") {
    if (!m.has_tag(0, "metric")) {
      m.set_parting(OMEGA_H_GHOSTED);
      oh::add_implied_isos_tag(&m);
    }
    double f = n == "refine" ? 0.6 : n == "coarsen" ? 1.9 : 1.0;
    auto met = oh::multiply_each_by(m.get_array<oh::Real>(0, "metric"), oh::metric_eigenvalue_from_length(f));
    if (m.get_tagbase(0, "metric")->ncomps() == 1) met = m.get_array<oh::Real>(0, "metric"), met = oh::multiply_each_by(met, 1.0 / (f * f));
    m.set_tag(0, "metric", met);
    auto o = make_opts(m, p);
    if (n == "refine") o.should_coarsen = o.should_swap = o.should_coarsen_slivers = false;
    if (n == "coarsen") o.should_refine = o.should_swap = false;
    if (n == "swap") o.should_refine = o.should_coarsen = false, o.min_quality_desired = 0.9, o.should_coarsen_slivers = false;
    bool did = adapt_once(m, o, p);
    m.set_parting(OMEGA_H_ELEM_BASED);
    return std::string(did ? "A " : "n ") + stats_note(m);
  }
  if (n == "jiggle") {  // seed, percent of the shortest edge
    if (m.family() != OMEGA_H_SIMPLEX || m.dim() == 1) return "";
    jiggle(m, u64(op.arg(0)), double(op.arg(1, 40)) / 100.0);
    return "";
  }
  if (n == "warp") {  // move to a warped shape, adapting on the way
    if (m.dim() == 1) return "";  // the quality of an edge does not tell that it is inverted
    m.set_parting(OMEGA_H_GHOSTED);
    if (!m.has_tag(0, "metric")) oh::add_implied_isos_tag(&m);
    auto w = interior_moves(m, u64(op.arg(0)), 1.2 * shortest_edge(m));
    store(m, 0, "warp", w);
    m.set_parting(OMEGA_H_ELEM_BASED);
    auto o = make_opts(m, p);
    std::string note;
    try {
      int it = 0;
      while (it++ < 3 && oh::warp_to_limit(&m, o, op.arg(1) != 0, 12)) note += adapt_once(m, o, p) ? "A" : "n";
    } catch (oh::exception const& ex) {
      if (!benign_stall(ex.what())) throw;
      note += "stalled";
    }
    if (m.has_tag(0, "warp")) m.remove_tag(0, "warp");
    m.set_parting(OMEGA_H_ELEM_BASED);
    return note + " " + stats_note(m);
  }
  if (n == "gentarget") {  // seed: size fields made by the library itself
    Rng r(u64(op.arg(0)) + 77);
    oh::MetricInput in;
    in.verbose = false;
    int nsrc = int(r.range(1, 2));
    bool has_den = m.has_tag(m.dim(), "density"), inner = false;
    m.set_parting(OMEGA_H_GHOSTED);
    inner = can_fit(m);
    for (int k = 0; k < nsrc; ++k) {
      auto iso = Omega_h_Isotropy(r.below(3));
      auto sc = r.flip(0.7) ? OMEGA_H_SCALES : OMEGA_H_ABSOLUTE;
      switch (r.below(6)) {
        case 5:
          if (has_den && inner) {
            store(m, m.dim(), "eg", oh::derive_element_gradients(&m, oh::project_by_fit(&m, m.get_array<oh::Real>(m.dim(), "density"))));
            in.add_source({OMEGA_H_DERIVATIVE, 0.5, "eg", iso, sc});
          }
          break;
        case 0: in.add_source({OMEGA_H_CONSTANT, 0.2 + 0.5 * double(r.below(100)) / 100, "", iso, sc}); break;
        case 1: in.add_source({OMEGA_H_IMPLIED, 0.6 + double(r.below(100)) / 100, "", iso, sc}); break;
        case 2:
          if (m.has_tag(0, "w") && inner) in.add_source({OMEGA_H_VARIATION, 0.5, "w", iso, sc});
          break;
        case 3:
          if (has_den && inner) in.add_source({OMEGA_H_VARIATION, 0.1, "density", iso, sc});
          break;
        default:
          if (m.has_tag(0, "w") && inner) in.add_source({OMEGA_H_DERIVATIVE, 0.5, "w", iso, sc});
      }
    }
    if (in.sources.empty()) in.add_source({OMEGA_H_IMPLIED, 0.9, "", OMEGA_H_ANISOTROPIC, OMEGA_H_SCALES});
    in.should_limit_lengths = true;
    in.min_length = 0.12;
    in.max_length = 1.5;
    in.nsmoothing_steps = int(r.below(3));
    in.should_limit_gradation = r.flip(0.5);
    in.max_gradation_rate = r.flip(0.5) ? 0.5 : 1.0;
    double ne = double(m.nglobal_ents(m.dim()));
    if (r.flip(0.4) && m.dim() > 1) {
      in.should_limit_element_count = true;
      in.min_element_count = ne * 0.3;
      in.max_element_count = ne * 1.5;
      in.should_limit_lengths = false;
      for (auto& src : in.sources) src.scales = OMEGA_H_SCALES;
    }
    for (auto nm : {"metric", "target_metric"})
      if (m.has_tag(0, nm)) m.remove_tag(0, nm);
    oh::generate_target_metric_tag(&m, in);
    if (m.has_tag(m.dim(), "eg")) m.remove_tag(m.dim(), "eg");
    auto want = oh::get_expected_nelems(&m, m.get_array<oh::Real>(0, "target_metric"));
    auto note = exact(want) + " ";
    if (op.arg(1) == 0 || want > (m.dim() == 3 ? 3000 : 4000)) {
      store(m, 0, "metric", m.get_array<oh::Real>(0, "target_metric"));
      m.remove_tag(0, "target_metric");
      m.set_parting(OMEGA_H_ELEM_BASED);
      return note;
    }
    oh::add_implied_metric_based_on_target(&m);
    m.set_parting(OMEGA_H_ELEM_BASED);
    auto o = make_opts(m, p);
    try {
      int it = 0;
      while (it++ < op.arg(1) && oh::approach_metric(&m, o)) note += adapt_once(m, o, p) ? "A" : "n";
    } catch (oh::exception const& ex) {
      if (!benign_stall(ex.what())) throw;
      note += "stalled";
    }
    m.set_parting(OMEGA_H_ELEM_BASED);
    return note + " " + stats_note(m);
  }
  if (n == "recover") {  // fields derived on the distributed mesh
    if (m.family() != OMEGA_H_SIMPLEX) return "";
    int d = m.dim();
    bool was_elem = m.parting() == OMEGA_H_ELEM_BASED;
    m.set_parting(OMEGA_H_GHOSTED);
    add_fields(m, 64 | 2 | 8, 4242);
    auto w = m.get_array<oh::Real>(0, "w");
    bool inner = can_fit(m);
    auto den = m.get_array<oh::Real>(d, "density");
    store(m, 0, "den_avg", oh::project_by_average(&m, den));
    store(m, 0, "iso_implied", oh::get_implied_isos(&m));
    store(m, 0, "met_implied", oh::get_implied_metrics(&m));
    store(m, 0, "met_smooth", oh::smooth_metric_once(&m, m.get_array<oh::Real>(0, "met_implied")));
    store(m, 0, "met_graded", oh::limit_metric_gradation(&m, m.get_array<oh::Real>(0, "iso_implied"), 0.2, 1e-2, false));
    if (inner) {
      store(m, 0, "den_fit", oh::project_by_fit(&m, m.get_array<oh::Real>(d, "pw")));
      store(m, 0, "w_grad", oh::recover_gradients(&m, w));
      store(m, 0, "w_hess", oh::recover_hessians(&m, w));
    }
    if (op.arg(0)) store(m, 0, "w_lap", oh::solve_laplacian(&m, w, 1, 1e-2, 1e-2));
    std::string note = exact(oh::get_expected_nelems(&m, m.get_array<oh::Real>(0, "met_graded"))) + " " + exact(oh::get_complexity(&m, m.get_array<oh::Real>(0, "iso_implied")));
    auto h = oh::get_histogram(&m, d, 4, 0.0, 1.0, m.ask_sizes());
    for (auto c : h.bins) note += " " + std::to_string(c);
    if (was_elem) m.set_parting(OMEGA_H_ELEM_BASED);
    return note;
  }
  if (n == "fields") {
    add_fields(m, int(op.arg(0)), u64(op.arg(1)));
    return "";
  }
  if (n == "tags") {
    add_random_tags(m, u64(op.arg(0)));
    return "";
  }
  if (n == "part") {
    repartition(m, int(op.arg(0)), u64(op.arg(1)));
    return "";
  }
  if (n == "balance") {
    int s = m.comm()->size();
    if ((s & (s - 1)) == 0) m.balance(op.arg(0) && m.has_tag(0, "metric"));
    return "";
  }
  if (n == "reown") {  // other owners for entities with several copies
    if (m.comm()->size() == 1 || m.parting() != OMEGA_H_ELEM_BASED) return "";
    for (int d = 0; d < m.dim(); ++d) {
      m.ask_dist(d);
      int rk = m.comm()->rank();
      auto g = oh::HostRead<oh::GO>(m.globals(d));
      // the highest rank that has a copy, or the present owner
      auto r0 = oh::HostRead<oh::I32>(m.ask_owners(d).ranks);
      oh::HostWrite<oh::I32> w(m.nents(d));
      auto top = m.reduce_array(d, oh::Read<oh::I32>(m.nents(d), oh::I32(rk)), 1, OMEGA_H_MAX);
      auto hi2 = oh::HostRead<oh::I32>(m.sync_array(d, top, 1));
      for (int i = 0; i < w.size(); ++i) w[i] = sim::mix(u64(op.arg(0)), u64(g[i])) % 2 ? hi2[i] : r0[i];
      auto o = oh::owners_from_globals(m.comm(), m.globals(d), oh::Read<oh::I32>(w.write()));
      m.set_owners(d, o);
    }
    return "";
  }
  if (n == "parting") {
    int k = int(op.arg(0));
    if (k == 0) m.set_parting(OMEGA_H_ELEM_BASED);
    if (k == 1) m.set_parting(OMEGA_H_VERT_BASED);
    if (k >= 2) m.set_parting(OMEGA_H_GHOSTED, int(std::max<i64>(1, op.arg(1, 1))), false);
    return "";
  }
  if (n == "sync") {
    for (int d = 0; d <= m.dim(); ++d) {
      std::vector<std::string> names;
      for (int i = 0; i < m.ntags(d); ++i) names.push_back(m.get_tag(d, i)->name());
      for (auto& nm : names) {
        if (nm == "global" || nm == "coordinates") continue;
        auto tb = m.get_tagbase(d, nm);
        int nc = tb->ncomps();
        bool async = op.arg(0) != 0;
        switch (tb->type()) {
          case OMEGA_H_I8: scramble_then_sync<oh::I8>(m, d, nm, nc, async); break;
          case OMEGA_H_I32: scramble_then_sync<oh::I32>(m, d, nm, nc, async); break;
          case OMEGA_H_I64: scramble_then_sync<oh::I64>(m, d, nm, nc, async); break;
          case OMEGA_H_F64: scramble_then_sync<oh::Real>(m, d, nm, nc, async); break;
        }
      }
    }
    return "";
  }
  if (n == "reorder") {
    if (m.comm()->size() == 1 || op.arg(0) == 0)
      oh::reorder_by_globals(&m);
    return "";
  }
  if (n == "osh") {  // write and read back
    std::string path = "m" + std::to_string(op.arg(0)) + ".osh";
    oh::binary::write(path, &m);
    oh::Mesh k(e.lib.get());
    oh::binary::read(path, e.world, &k, op.arg(1) != 0);
    m = k;
    return "";
  }
  if (n == "copy") {
    oh::Mesh k = m;
    m = k;
    return "";
  }
  if (n == "local") {
    check_local(m, "derived relations");
    return "";
  }
  if (n == "asks") {  // fill caches so that later operations must keep or drop them correctly
    for (int h = 1; h <= m.dim(); ++h)
      for (int l = 0; l < h; ++l) m.ask_down(h, l), m.ask_up(l, h);
    m.ask_star(0), m.ask_dual();
    if (m.family() == OMEGA_H_SIMPLEX) {
      m.ask_sizes();
      if (m.has_tag(0, "metric")) m.ask_qualities(), m.ask_lengths();
    }
    for (int d = 0; d <= m.dim(); ++d) m.ask_dist(d), m.globals(d);
    return "";
  }
  if (n == "meas") {
    std::string s = stats_note(m);
    auto sz = m.ask_sizes();
    s += " " + exact(oh::repro_sum_owned(&m, m.dim(), sz));
    auto q = oh::get_minmax(m.comm(), m.ask_sizes());
    s += " " + exact(q.min) + " " + exact(q.max);
    return s;
  }
  if (n == "gstats") {  // statistics that do not depend on where entities live
    u64 s = u64(op.arg(0));
    std::string o;
    for (int d = 0; d <= m.dim(); ++d) {
      auto g = oh::HostRead<oh::GO>(m.globals(d));
      oh::HostWrite<oh::Real> w(m.nents(d));
      oh::HostWrite<oh::I8> mk(m.nents(d));
      for (int i = 0; i < w.size(); ++i) w[i] = (hash01(s + u64(d), u64(g[i])) - 0.3) * std::pow(2.0, double(sim::mix(s, u64(g[i])) % 40)), mk[i] = oh::I8(sim::mix(s + 9, u64(g[i])) % 3 == 0);
      auto a = oh::Reals(w.write());
      auto marks = oh::Read<oh::I8>(mk.write());
      o += std::to_string(m.nglobal_ents(d)) + " " + exact(oh::repro_sum_owned(&m, d, a)) + " " + std::to_string(oh::count_owned_marks(&m, d, marks));
      auto mm = oh::get_minmax(m.comm(), a);
      o += " " + exact(mm.min) + " " + exact(mm.max);
      auto h = oh::get_histogram(&m, d, int(2 + s % 5), -4.0, 3000.0, a);
      for (auto b : h.bins) o += " " + std::to_string(b);
      if (p.get("verbose")) oh::print_goal_stats(&m, "value", d, a, {0.0, 100.0}, mm);
      o += "; ";
    }
    if (m.dim() == 1) {
      auto b = oh::get_bounding_box<1>(&m);
      o += exact(b.min[0]) + " " + exact(b.max[0]);
    } else if (m.dim() == 2) {
      auto b = oh::get_bounding_box<2>(&m);
      for (int k = 0; k < 2; ++k) o += exact(b.min[k]) + " " + exact(b.max[k]) + " ";
    } else {
      auto b = oh::get_bounding_box<3>(&m);
      for (int k = 0; k < 3; ++k) o += exact(b.min[k]) + " " + exact(b.max[k]) + " ";
    }
    if (m.family() == OMEGA_H_SIMPLEX) {
      o += exact(oh::repro_sum_owned(&m, m.dim(), m.ask_sizes())) + " ";
      if (m.has_tag(m.dim(), "density")) {
        auto sz = m.ask_sizes();
        auto dn = m.get_array<oh::Real>(m.dim(), "density");
        o += exact(oh::repro_sum_owned(&m, m.dim(), oh::multiply_each(sz, dn))) + " ";
      }
    }
    return o;
  }
  sim::harness_error("unknown operation " + n);
}

Trace run_program(Program const& p, bool test_world, int nranks, bool every_step) {
  Trace t;
  std::size_t nsteps = p.ops.size() + 1;
  t.steps.resize(nsteps);
  t.notes.resize(nsteps);
  t.names.push_back("after building the box");
  for (std::size_t k = 0; k < p.ops.size(); ++k) t.names.push_back("after operation " + std::to_string(k + 1) + " (" + p.ops[k].name + ")");
  for (auto& s : t.steps) s.resize(std::size_t(nranks));
  for (auto& s : t.notes) s.resize(std::size_t(nranks));
  auto r = simulate(p, test_world, nranks, [&](Env& e) {
    auto m = make_box(e.world, p);
    auto rk = std::size_t(e.rank);
    t.steps[0][rk] = take_image(m);
    for (std::size_t k = 0; k < p.ops.size(); ++k) {
      t.notes[k + 1][rk] = exec_op(e, m, p, p.ops[k]);
      if (every_step || k + 1 == p.ops.size()) t.steps[k + 1][rk] = take_image(m);
    }
  });
  t.failed = r.failed;
  t.what = r.what;
  t.fail_rank = r.fail_rank;
  return t;
}

CheckOpts box_opts(Program const& p) {
  CheckOpts o;
  o.box = p.get("curve") == 0;
  o.volume = 1.0 + 0.25 * double(p.get("lx", 0));
  return o;
}
void agree_notes(Trace const& t, std::string const& who) {
  for (std::size_t k = 0; k < t.notes.size(); ++k)
    for (std::size_t r = 1; r < t.notes[k].size(); ++r)
      if (t.notes[k][r] != t.notes[k][0])
        violate("ranks-disagree", who + " " + t.names[k] + ": rank 0 computed " + t.notes[k][0] + " but rank " + std::to_string(r) + " computed " + t.notes[k][r]);
}
void check_class_sets(Trace const& t) {
  std::map<std::string, std::vector<std::pair<int, int>>> want;
  for (auto& kv : box_sets(t.steps[0][0].dim)) {
    auto& w = want[kv.first];
    for (auto& c : kv.second) w.push_back({c.dim, c.id});
  }
  for (std::size_t k = 0; k < t.steps.size(); ++k)
    for (auto& s : t.steps[k])
      if (s.dim && s.class_sets != want) violate("class-sets", t.names[k] + ": the mesh does not have the class sets it was given");
}
void check_steps(Trace const& t, CheckOpts const& o, std::string const& who) {
  check_class_sets(t);
  for (std::size_t k = 0; k < t.steps.size(); ++k)
    if (t.steps[k][0].dim) check_parts(t.steps[k], o, who + " " + t.names[k]);
}
void compare_traces(Trace const& a, Trace const& b, std::string const& who, CmpOpts const& o) {
  for (std::size_t k = 0; k < a.steps.size() && k < b.steps.size(); ++k) {
    if (!a.steps[k][0].dim || !b.steps[k][0].dim) continue;
    auto d = compare(canonical(a.steps[k]), canonical(b.steps[k]), o);
    if (!d.empty()) violate("result-differs", who + " " + a.names[k] + ": " + d);
    if (a.notes[k][0] != b.notes[k][0])
      violate("result-differs", who + " " + a.names[k] + ": computed values differ: " + a.notes[k][0] + " and " + b.notes[k][0]);
  }
}

void gen_box(Program& p, Rng& r, int size_class) {
  int dim = int(r.range(1, 3));
  p.cfg["dim"] = dim;
  if (dim == 1)
    p.cfg["nx"] = r.range(1, size_class ? 12 : 6);
  else if (dim == 2)
    p.cfg["nx"] = r.range(1, size_class ? 5 : 3), p.cfg["ny"] = r.range(1, size_class ? 4 : 3);
  else
    p.cfg["nx"] = r.range(1, size_class ? 3 : 2), p.cfg["ny"] = r.range(1, 2), p.cfg["nz"] = r.range(1, size_class ? 2 : 1);
  p.cfg["lx"] = r.range(0, 4);
  p.cfg["sym"] = dim > 1 && r.flip(0.2);
  if (p.cfg["nx"] > 1 && r.flip(0.3)) p.cfg["region"] = r.range(1, p.cfg["nx"] - 1);
  p.cfg["balance"] = r.flip(0.5);
  p.cfg["part"] = r.range(0, 5);
  p.cfg["partseed"] = r.range(0, 9999);
  if (r.flip(0.3)) p.cfg["selfsend"] = r.flip(0.5) ? 0 : 100000000;
  if (r.flip(0.15)) p.cfg["time"] = 1;
  if (r.flip(0.6)) p.cfg["dtol"] = r.range(1, 4);
  if (dim > 1 && r.flip(0.4)) p.cfg["curve"] = r.range(1, 3);
  if (r.flip(0.15)) p.cfg["tight"] = r.range(1, 3);
  if (r.flip(0.3)) p.cfg["verbose"] = r.range(1, 3);
  if (r.flip(0.2)) p.cfg["flip"] = 1;
  if (r.flip(0.15)) p.cfg["lenient"] = 1;
  if (r.flip(0.15)) p.cfg["nsliver"] = r.range(1, 5);
}
std::map<std::string, std::vector<i64>> mesh_shrink() {
  return {{"nranks", {1, 2, 3, 4}}, {"nx", {1, 2, 3}}, {"ny", {1, 2}}, {"nz", {1}}, {"lx", {0}}, {"sym", {0}}, {"part", {0, 1}}, {"region", {0}},
      {"poison", {0}}, {"time", {0}}, {"verbose", {0}}, {"flip", {0}}, {"pool", {0}}, {"selfsend", {0}}, {"lenient", {0}}, {"nsliver", {0}}, {"curve", {0}}, {"tight", {0}}, {"dtol", {0}}, {"balance", {1}}};
}
void gen_ops(Program& p, Rng& r, int n, std::string const& mix) {
  // mix: characters naming the allowed operations, repeated for weight
  for (int k = 0; k < n; ++k) {
    char c = mix[r.below(mix.size())];
    i64 s = r.range(0, 9999);
    switch (c) {
      case 'a': p.ops.push_back({"adapt", {r.range(0, 4) + (r.flip(0.5) ? 0 : r.flip(0.5) ? 8 : 16), s, r.range(0, 4), r.range(1, 3)}}); break;
      case 'd': p.ops.push_back({"direct", {r.flip(0.5) ? r.range(60, 95) : r.range(110, 220), r.range(0, 1)}}); break;
      case 'r': p.ops.push_back({"refine", {}}); break;
      case 'c': p.ops.push_back({"coarsen", {}}); break;
      case 's': p.ops.push_back({"swap", {}}); break;
      case 'f': p.ops.push_back({"fields", {r.range(1, 1023), s}}); break;
      case 't': p.ops.push_back({"tags", {s}}); break;
      case 'p': p.ops.push_back({"part", {r.range(0, 5), s}}); break;
      case 'b': p.ops.push_back({"balance", {r.range(0, 1)}}); break;
      case 'g': {
        i64 k2 = r.range(0, 3);
        p.ops.push_back({"parting", {k2, k2 >= 2 ? r.range(1, 3) : 0}});
        break;
      }
      case 'y': p.ops.push_back({"sync", {0}}); break;
      case 'Y': p.ops.push_back({"sync", {1}}); break;
      case 'o': p.ops.push_back({"osh", {r.range(0, 3), 0}}); break;
      case 'R': p.ops.push_back({"reorder", {0}}); break;
      case 'm': p.ops.push_back({"meas", {}}); break;
      case 'K': p.ops.push_back({"local", {}}); break;
      case 'l': p.ops.push_back({"asks", {}}); break;
      case 'C': p.ops.push_back({"copy", {}}); break;
      case 'j': p.ops.push_back({"jiggle", {s, r.range(10, 60)}}); break;
      case 'w': p.ops.push_back({"warp", {s, r.range(0, 1)}}); break;
      case 'G': p.ops.push_back({"gentarget", {s, r.range(0, 2)}}); break;
      case 'O': p.ops.push_back({"reown", {s}}); break;
      case 'v': p.ops.push_back({"recover", {r.range(0, 1)}}); break;
      default: sim::harness_error("gen_ops");
    }
  }
}
