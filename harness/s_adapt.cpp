// What adaptation must preserve and reach: the domain and its classification,
// quality and length bounds, transferred fields.
#include <Omega_h_class.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_shape.hpp>
#include <algorithm>
#include <cmath>
#include <set>
#include <sstream>
#include "meshprog.hpp"
using namespace sim;

namespace {
using V3 = std::array<double, 3>;
// a mesh as plain global data
struct Plain {
  int dim = 0;
  std::vector<V3> x;                       // vertices
  std::vector<std::vector<int>> ev[4];     // vertices of each entity (as indices), by dimension
  std::vector<int> cd[4], ci[4];
  Canon const* c = nullptr;
  std::size_t n(int d) const { return d ? ev[d].size() : x.size(); }
  template <class T>
  T val(int d, std::size_t i, std::string const& tag, int k = 0) const {
    auto& e = c->ents[d][i];
    auto& t = c->parts[std::size_t(e.part)].d[d].tags.at(tag);
    T v;
    std::memcpy(&v, t.data.data() + std::size_t(e.idx) * t.width + std::size_t(k) * sizeof(T), sizeof(T));
    return v;
  }
  int ncomps(int d, std::string const& tag) const {
    auto& m = c->parts[0].d[d].tags;
    auto it = m.find(tag);
    return it == m.end() ? 0 : it->second.ncomps;
  }
};
Plain plain(Canon const& c) {
  Plain p;
  p.c = &c;
  p.dim = c.dim;
  std::map<i64, int> at;
  for (std::size_t i = 0; i < c.ents[0].size(); ++i) at[c.ents[0][i].gid] = int(i);
  p.x.resize(c.ents[0].size(), V3{0, 0, 0});
  for (std::size_t i = 0; i < p.x.size(); ++i)
    for (int k = 0; k < c.dim; ++k) p.x[i][std::size_t(k)] = p.val<double>(0, i, "coordinates", k);
  for (int d = 0; d <= c.dim; ++d)
    for (std::size_t i = 0; i < c.ents[d].size(); ++i) {
      auto& e = c.ents[d][i];
      auto& D = c.parts[std::size_t(e.part)].d[d];
      std::vector<int> v;
      for (int k = 0; k < D.deg; ++k) v.push_back(at.at(D.verts[std::size_t(e.idx) * std::size_t(D.deg) + std::size_t(k)]));
      p.ev[d].push_back(v);
      p.cd[d].push_back(p.val<signed char>(d, i, "class_dim"));
      p.ci[d].push_back(p.val<int>(d, i, "class_id"));
    }
  return p;
}
V3 sub(V3 const& a, V3 const& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
double dot(V3 const& a, V3 const& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V3 cross(V3 const& a, V3 const& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double measure(Plain const& p, int d, std::size_t i) {
  if (d == 0) return 1;
  auto& v = p.ev[d][i];
  auto a = sub(p.x[std::size_t(v[1])], p.x[std::size_t(v[0])]);
  if (d == 1) return std::sqrt(dot(a, a));
  auto b = sub(p.x[std::size_t(v[2])], p.x[std::size_t(v[0])]);
  auto n = cross(a, b);
  if (d == 2) return 0.5 * std::sqrt(dot(n, n));
  auto c = sub(p.x[std::size_t(v[3])], p.x[std::size_t(v[0])]);
  return std::fabs(dot(n, c)) / 6;
}
// shape quality of an element in physical space: 1 for equilateral
double shape(Plain const& p, std::size_t i) {
  int d = p.dim;
  if (d == 1) return 1;
  auto& v = p.ev[d][i];
  double s = 0;
  int ne = 0;
  for (std::size_t a = 0; a < v.size(); ++a)
    for (std::size_t b = a + 1; b < v.size(); ++b, ++ne) {
      auto e = sub(p.x[std::size_t(v[a])], p.x[std::size_t(v[b])]);
      s += dot(e, e);
    }
  double m = measure(p, d, i);
  if (d == 2) return 4 * std::sqrt(3.0) * m / s;
  return std::cbrt(std::pow(m * 6 * std::sqrt(2.0), 2)) / (s / ne);
}
double worst_shape(Plain const& p) {
  double q = 1e9;
  for (std::size_t i = 0; i < p.n(p.dim); ++i) q = std::min(q, shape(p, i));
  return q;
}
struct Model {
  std::map<std::pair<int, int>, double> size;
  std::map<std::pair<int, int>, std::pair<V3, V3>> box;
};
Model model_of(Plain const& p) {
  Model m;
  for (int d = 0; d <= p.dim; ++d)
    for (std::size_t i = 0; i < p.n(d); ++i) {
      auto k = std::make_pair(p.cd[d][i], p.ci[d][i]);
      if (k.first == d) m.size[k] += measure(p, d, i);
      auto ins = m.box.emplace(k, std::make_pair(V3{1e9, 1e9, 1e9}, V3{-1e9, -1e9, -1e9}));
      for (auto v : p.ev[d][i])
        for (std::size_t c = 0; c < 3; ++c) {
          ins.first->second.first[c] = std::min(ins.first->second.first[c], p.x[std::size_t(v)][c]);
          ins.first->second.second[c] = std::max(ins.first->second.second[c], p.x[std::size_t(v)][c]);
        }
    }
  return m;
}
std::string key(std::pair<int, int> k) { return "model entity (" + std::to_string(k.first) + "," + std::to_string(k.second) + ")"; }
// the mesh still represents the same classified domain
void check_domain(Plain const& p, Model const& m0, bool flat, std::string const& when) {
  auto m = model_of(p);
  for (auto& kv : m.box) {
    auto it = m0.box.find(kv.first);
    if (it == m0.box.end()) violate("domain", when + ": entities are classified on " + key(kv.first) + ", which the domain does not have");
    for (std::size_t c = 0; flat && c < 3; ++c)
      if (kv.second.first[c] < it->second.first[c] - 1e-9 || kv.second.second[c] > it->second.second[c] + 1e-9)
        violate("domain", when + ": entities classified on " + key(kv.first) + " lie outside it");
  }
  for (auto& kv : m0.size) {
    auto it = m.size.find(kv.first);
    if (it == m.size.end()) violate("domain", when + ": nothing is classified on " + key(kv.first) + " any more");
    if (flat && std::fabs(it->second - kv.second) > 1e-9 * (1 + kv.second))
      violate("domain", when + ": " + key(kv.first) + " is covered by " + std::to_string(it->second) + " instead of " + std::to_string(kv.second));
  }
  int D = p.dim;
  std::map<std::vector<int>, std::vector<int>> side_ids;  // sides by vertices: class ids of their elements
  std::map<std::vector<int>, std::size_t> index[4];
  for (int d = 0; d <= D; ++d)
    for (std::size_t i = 0; i < p.n(d); ++i) {
      if (p.cd[d][i] < d || p.cd[d][i] > D) violate("domain", when + ": an entity of dimension " + std::to_string(d) + " is classified on " + key({p.cd[d][i], p.ci[d][i]}));
      auto v = d ? p.ev[d][i] : std::vector<int>{int(i)};
      std::sort(v.begin(), v.end());
      index[d][v] = i;
      if (d == 0) continue;
      for (std::size_t k = 0; k < v.size(); ++k) {
        auto f = v;
        f.erase(f.begin() + long(k));
        auto it = index[d - 1].find(f);
        if (it == index[d - 1].end()) violate("domain", when + ": a facet is missing");
        auto j = it->second;
        int a = p.cd[d - 1][j], b = p.cd[d][i];
        if (a > b || (a == b && p.ci[d - 1][j] != p.ci[d][i]))
          violate("domain", when + ": an entity of dimension " + std::to_string(d) + " on " + key({b, p.ci[d][i]}) + " is bounded by one on " + key({a, p.ci[d - 1][j]}));
        if (d == D) side_ids[f].push_back(p.ci[d][i]);
      }
    }
  for (auto& s : side_ids) {
    bool should = s.second.size() == 1 || s.second[0] != s.second[1];
    auto j = index[D - 1].at(s.first);
    bool is = p.cd[D - 1][j] < D;
    if (should != is) violate("domain", when + (should ? ": a side between regions or on the outside is not classified on a boundary" : ": a side inside a region is classified on a boundary"));
  }
}

bool adapts(std::string const& n) { return n == "adapt" || n == "direct" || n == "refine" || n == "coarsen" || n == "swap" || n == "gentarget"; }

// ---- D10 ----
void domain_kept(Program const& p) {
  int n = int(p.get("nranks"));
  auto t = run_program(p, true, n);
  if (input_rejected(t)) return;
  if (t.failed) violate("exception", "rank " + std::to_string(t.fail_rank) + " failed: " + t.what);
  check_class_sets(t);
  Model m0;
  double q0 = 0;
  double allowed = int(p.get("dim")) == 1 ? 0.0 : p.get("lenient") ? 0.1 : int(p.get("dim")) == 3 ? 0.20 : 0.30;
  bool iso = true;
  for (auto& op : p.ops)
    if ((op.name == "adapt" && (op.arg(0) & 24)) || (op.name == "direct" && op.arg(1)) || op.name == "gentarget") iso = false;
  if (int(p.get("dim")) == 1) iso = true;
  for (std::size_t k = 0; k < t.steps.size(); ++k) {
    auto c = canonical(t.steps[k]);
    auto m = plain(c);
    if (k == 0)
      m0 = model_of(m), q0 = worst_shape(m);
    else {
      check_domain(m, m0, p.get("curve") == 0, t.names[k]);
      if (iso && adapts(p.ops[k - 1].name)) {
        double q = worst_shape(m);
        if (q < std::min(q0, allowed) - 1e-9) violate("quality", t.names[k] + ": the worst element has shape quality " + exact(q) + " although " + exact(std::min(q0, allowed)) + " was there to keep");
        q0 = q;
      } else
        q0 = worst_shape(m);
    }
    event(canon_hash(c));
  }
}
Program gen_adapt(Rng& r, int maxr, int nops, char const* mixs) {
  Program p;
  common_cfg(p, r, maxr, 0.6);
  gen_box(p, r, 1);
  if (p.cfg["nx"] > 1 && !p.get("region") && r.flip(0.4)) p.cfg["region"] = r.range(1, p.cfg["nx"] - 1);
  gen_ops(p, r, nops, mixs);
  p.cfg["strict"] = 1;
  return p;
}
AddScenario d10a({"D10", "domain", 1, [](Rng& r, u64) { return gen_adapt(r, 4, int(r.range(1, 6)), "aaadrrccssjjwGpb"); }, domain_kept, mesh_shrink()});

// ---- D11 ----
struct Sum {
  double v = 0, a = 0;
  void add(double x) { v += x, a += std::fabs(x); }
};
// `simple`: a single kind of modification, so a vertex at the same place is the same vertex
void check_fields(Plain const& o, Plain const& m, bool simple, bool flat, std::string const& when) {
  int D = m.dim;
  auto has = [&](int d, char const* nm) {
    int a = o.ncomps(d, nm), b = m.ncomps(d, nm);
    if (a && a != b) violate("transfer", when + ": field " + nm + " was lost or changed its size");
    return a;
  };
  std::map<V3, std::size_t> old_at;
  for (std::size_t i = 0; i < o.n(0); ++i) old_at[o.x[i]] = i;
  if (has(0, "u"))
    for (std::size_t i = 0; i < m.n(0); ++i) {
      double a = 1.5, b = -0.25;
      for (int k = 0; k < D; ++k) a += (k + 1) * m.x[i][std::size_t(k)], b += (2.0 - k) * m.x[i][std::size_t(k)];
      if (std::fabs(m.val<double>(0, i, "u", 0) - a) > 1e-9 || std::fabs(m.val<double>(0, i, "u", 1) - b) > 1e-9)
        violate("transfer", when + ": a linear field is not reproduced at a vertex: " + exact(m.val<double>(0, i, "u", 0)) + " instead of " + exact(a));
    }
  if (has(0, "w")) {
    double lo = 1e300, hi = -1e300;
    for (std::size_t i = 0; i < o.n(0); ++i) lo = std::min(lo, o.val<double>(0, i, "w")), hi = std::max(hi, o.val<double>(0, i, "w"));
    for (std::size_t i = 0; i < m.n(0); ++i) {
      auto v = m.val<double>(0, i, "w");
      auto it = old_at.find(m.x[i]);
      if (simple && it != old_at.end() && o.val<double>(0, it->second, "w") != v) violate("transfer", when + ": a vertex that stayed has another interpolated value");
      if (v < lo - 1e-12 || v > hi + 1e-12) violate("transfer", when + ": an interpolated value leaves the range of the old ones");
    }
  }
  for (int c = 0; c < 2; ++c)
    if (has(D, "dens3")) {
      std::map<int, Sum> a, b;
      for (std::size_t i = 0; i < o.n(D); ++i) a[o.ci[D][i]].add(o.val<double>(D, i, "dens3", c) * measure(o, D, i));
      for (std::size_t i = 0; i < m.n(D); ++i) b[m.ci[D][i]].add(m.val<double>(D, i, "dens3", c) * measure(m, D, i));
      for (auto& kv : a)
        if (!(std::fabs(b[kv.first].v - kv.second.v) <= 1e-9 * kv.second.a))
          violate("conservation", when + ": the integral of component " + std::to_string(c) + " of dens3 over region " + std::to_string(kv.first) + " was " + exact(kv.second.v) + " and is " + exact(b[kv.first].v));
    }
  for (auto nm : {"density", "dens2"})
    if (has(D, nm)) {
      std::map<int, Sum> a, b;
      double lo = 1e300;
      for (std::size_t i = 0; i < o.n(D); ++i) a[o.ci[D][i]].add(o.val<double>(D, i, nm) * measure(o, D, i));
      for (std::size_t i = 0; i < m.n(D); ++i) b[m.ci[D][i]].add(m.val<double>(D, i, nm) * measure(m, D, i)), lo = std::min(lo, m.val<double>(D, i, nm));
      for (auto& kv : a)
        if ((std::string(nm) == "density" || flat) && !(std::fabs(b[kv.first].v - kv.second.v) <= 1e-9 * kv.second.a))
          violate("conservation", when + ": the integral of " + nm + " over region " + std::to_string(kv.first) + " was " + exact(kv.second.v) + " and is " + exact(b[kv.first].v));
      double olo = 1e300, ohi = 0, hi = 0;
      for (std::size_t i = 0; i < o.n(D); ++i) olo = std::min(olo, o.val<double>(D, i, nm)), ohi = std::max(ohi, o.val<double>(D, i, nm));
      for (std::size_t i = 0; i < m.n(D); ++i) hi = std::max(hi, m.val<double>(D, i, nm));
      if (std::string(nm) == "dens2" && (lo < olo - 1e-9 || hi > ohi + 1e-9))
        violate("transfer", when + ": " + nm + " leaves the range of the old values");
    }
  if (has(0, "velocity") && has(D, "density")) {
    auto total = [&](Plain const& q, int k) {
      Sum s;
      for (std::size_t i = 0; i < q.n(D); ++i) {
        double v = 0;
        for (auto x : q.ev[D][i]) v += q.val<double>(0, std::size_t(x), "velocity", k) / double(D + 1);
        s.add(v * q.val<double>(D, i, "density") * measure(q, D, i));
      }
      return s;
    };
    bool fixes = has(0, "momentum_velocity_fixed") != 0;
    for (int k = 0; k < D; ++k) {
      auto a = total(o, k), b = total(m, k);
      if (fixes) {
        for (std::size_t i = 0; i < m.n(0); ++i)
          if ((m.val<signed char>(0, i, "momentum_velocity_fixed") >> k) & 1)
            if (std::fabs(m.val<double>(0, i, "velocity", k) - (2.0 + k)) > 1e-10)
              violate("transfer", when + ": a fixed velocity component became " + exact(m.val<double>(0, i, "velocity", k)));
        bool held = false;  // an element that cannot be corrected
        for (std::size_t i = 0; i < m.n(D); ++i) {
          std::size_t nf = 0;
          for (auto x : m.ev[D][i]) nf += (m.val<signed char>(0, std::size_t(x), "momentum_velocity_fixed") >> k) & 1;
          held = held || nf == m.ev[D][i].size();
        }
        if (held) continue;
      }
      if (!(std::fabs(a.v - b.v) <= 1e-8 * a.a)) violate("conservation", when + ": momentum component " + std::to_string(k) + " was " + exact(a.v) + " and is " + exact(b.v));
    }
  }
  if (int nc = has(D, "pw")) {
    std::set<std::vector<double>> vals;
    auto get = [&](Plain const& q, std::size_t i) {
      std::vector<double> v;
      for (int k = 0; k < nc; ++k) v.push_back(q.val<double>(D, i, "pw", k));
      return v;
    };
    for (std::size_t i = 0; i < o.n(D); ++i) vals.insert(get(o, i));
    for (std::size_t i = 0; i < m.n(D); ++i)
      if (!vals.count(get(m, i))) violate("transfer", when + ": a pointwise element value is none of the old ones");
  }
  if (has(D, "color")) {
    for (int d = 0; d <= D; ++d) {
      std::set<int> vals;
      for (int e = d > 1 ? 1 : d; e <= D; ++e)  // new entities take the value of the entity modified
        for (std::size_t i = 0; i < o.n(e); ++i) vals.insert(o.val<int>(e, i, "color"));
      for (std::size_t i = 0; i < m.n(d); ++i)
        if (!vals.count(m.val<int>(d, i, "color"))) violate("transfer", when + ": an inherited value of dimension " + std::to_string(d) + " is none of the old ones");
    }
  }
  if (int nc = has(0, "met2")) {
    (void)nc;
    double lo = 1e300, hi = 0;
    for (std::size_t i = 0; i < o.n(0); ++i) lo = std::min(lo, o.val<double>(0, i, "met2")), hi = std::max(hi, o.val<double>(0, i, "met2"));
    for (std::size_t i = 0; i < m.n(0); ++i) {
      auto v = m.val<double>(0, i, "met2");
      auto it = old_at.find(m.x[i]);
      if (simple && it != old_at.end() && o.val<double>(0, it->second, "met2") != v) violate("transfer", when + ": a vertex that stayed has another metric");
      if (!(v >= lo * (1 - 1e-9) && v <= hi * (1 + 1e-9))) violate("transfer", when + ": an interpolated metric leaves the range of the old ones");
    }
  }
}
// entities whose vertices did not change keep what they carried
void check_kept(Plain const& o, Plain const& m, bool simple, std::string const& when) {
  int D = m.dim;
  for (int d = 0; d <= D; ++d) {
    std::map<std::vector<V3>, std::size_t> at;
    auto pos = [&](Plain const& q, std::size_t i) {
      std::vector<V3> v;
      for (auto k : d ? q.ev[d][i] : std::vector<int>{int(i)}) v.push_back(q.x[std::size_t(k)]);
      std::sort(v.begin(), v.end());
      return v;
    };
    for (std::size_t i = 0; i < o.n(d); ++i) at[pos(o, i)] = i;
    for (std::size_t i = 0; i < m.n(d); ++i) {
      auto it = at.find(pos(m, i));
      if (it == at.end()) continue;
      if (o.cd[d][it->second] != m.cd[d][i] || o.ci[d][it->second] != m.ci[d][i])
        violate("domain", when + ": an entity of dimension " + std::to_string(d) + " that stayed changed its classification");
      if (!simple) continue;
      for (auto nm : {"color", "pw", "dens2"})
        if (o.ncomps(d, nm) && m.ncomps(d, nm) == o.ncomps(d, nm)) {
          auto& a = o.c->parts[std::size_t(o.c->ents[d][it->second].part)].d[d].tags.at(nm);
          auto& b = m.c->parts[std::size_t(m.c->ents[d][i].part)].d[d].tags.at(nm);
          if (std::memcmp(a.data.data() + std::size_t(o.c->ents[d][it->second].idx) * a.width, b.data.data() + std::size_t(m.c->ents[d][i].idx) * b.width, a.width))
            violate("transfer", when + ": an entity of dimension " + std::to_string(d) + " that stayed has another value of " + nm);
        }
    }
  }
}
void transfer(Program const& p) {
  int n = int(p.get("nranks"));
  auto t = run_program(p, true, n);
  if (input_rejected(t)) return;
  if (t.failed) violate("exception", "rank " + std::to_string(t.fail_rank) + " failed: " + t.what);
  std::unique_ptr<Canon> prev;
  for (std::size_t k = 0; k < t.steps.size(); ++k) {
    std::unique_ptr<Canon> c(new Canon(canonical(t.steps[k])));
    if (k && adapts(p.ops[k - 1].name)) {
      auto a = plain(*prev), b = plain(*c);
      bool simple = p.ops[k - 1].name == "refine" || p.ops[k - 1].name == "coarsen" || p.ops[k - 1].name == "swap";
      check_fields(a, b, simple, p.get("curve") == 0, t.names[k]);
      check_kept(a, b, simple && p.ops[k - 1].name != "swap", t.names[k]);  // swaps may undo each other
    }
    prev = std::move(c);
    event(canon_hash(*prev));
  }
}
AddScenario d11a({"D11", "transfer", 1,
    [](Rng& r, u64) {
      auto p = gen_adapt(r, 4, int(r.range(1, 4)), "aaadrrccssGpb");
      p.ops.insert(p.ops.begin(), {"fields", {r.range(1, 1023), r.range(0, 999)}});
      if (r.flip(0.4)) p.ops.insert(p.ops.begin(), {"jiggle", {r.range(0, 9999), r.range(10, 60)}});
      return p;
    },
    transfer, mesh_shrink()});
}  // namespace
