// D22: queries and fields derived from a mesh do not depend on how it is
// distributed.
#include <Omega_h_assoc.hpp>
#include <Omega_h_confined.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_random.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_scatterplot.hpp>
#include <Omega_h_surface.hpp>
#include <Omega_h_vtk.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>
#include "meshprog.hpp"
using namespace sim;

namespace {
// what one derivation gave: a value per entity, by global number, a value all
// ranks share, or the lines of a file
struct Field {
  std::string what;
  bool even = false;      // known up to its sign
  double tol = 0;         // relative, zero: bitwise
  std::map<i64, std::vector<double>> at;
  std::vector<std::string> lines;
};
using Fields = std::vector<Field>;

struct Deriver {
  Env& e;
  oh::Mesh& m;
  Fields& all;         // of every rank, in the same order
  std::size_t next = 0;
  Field& slot(std::string const& what) {
    if (all.size() <= next) all.resize(next + 1);
    auto& f = all[next++];
    f.what = what;
    return f;
  }
  // copies: every copy has to hold the value of its owner
  template <class T>
  void field(std::string const& what, int d, oh::Read<T> a, int w = 1, bool copies = true, bool even = false, double tol = 0) {
    auto& f = slot(what + " of dimension " + std::to_string(d));
    f.even = even, f.tol = tol;
    if (a.size() != w * m.nents(d)) violate("derived-size", f.what + ": " + std::to_string(a.size()) + " values for " + std::to_string(m.nents(d)) + " entities");
    auto h = oh::HostRead<T>(a);
    auto g = oh::HostRead<oh::GO>(m.globals(d));
    auto own = oh::HostRead<oh::I8>(m.owned(d));
    for (int i = 0; i < m.nents(d); ++i) {
      std::vector<double> v;
      for (int k = 0; k < w; ++k) v.push_back(double(h[i * w + k]));
      if (!copies && !own[i]) continue;
      for (double x : v)
        if (!std::isfinite(x)) violate("derived-finite", f.what + " is " + exact(x) + " for entity " + std::to_string(g[i]));
      auto it = f.at.emplace(g[i], v);
      if (!it.second && !same(f, it.first->second, v))
        violate("derived-copies", f.what + ": copies of entity " + std::to_string(g[i]) + " on " + std::to_string(e.world->size()) + " ranks get " + text(it.first->second) + " and " + text(v));
    }
  }
  void value(std::string const& what, double x) {
    auto& f = slot(what);
    auto it = f.at.emplace(0, std::vector<double>{x});
    if (!it.second && !same(f, it.first->second, {x})) violate("derived-copies", what + ": one rank gets " + text(it.first->second) + ", another " + exact(x));
  }
  static std::string text(std::vector<double> const& v) {
    std::string s;
    for (double x : v) s += (s.empty() ? "" : " ") + exact(x);
    return s;
  }
  static bool same(Field const& f, std::vector<double> const& a, std::vector<double> const& b) {
    if (a.size() != b.size()) return false;
    auto eq = [&](double s) {
      double mag = 0, d = 0;
      for (std::size_t k = 0; k < a.size(); ++k) {
        if (std::isnan(a[k]) != std::isnan(b[k])) return false;
        if (std::isnan(a[k])) continue;
        mag = std::max({mag, std::fabs(a[k]), std::fabs(b[k])});
        if (a[k] != s * b[k]) d = std::max(d, std::fabs(a[k] - s * b[k]));
      }
      return d <= f.tol * (1 + mag);
    };
    return eq(1) || (f.even && eq(-1));
  }
};
std::string slurp(std::string const& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
template <class T>
oh::Read<T> noise(oh::Mesh& m, int d, int w, u64 seed, double scale) {
  auto g = oh::HostRead<oh::GO>(m.globals(d));
  oh::HostWrite<T> h(g.size() * w);
  for (int i = 0; i < g.size(); ++i)
    for (int k = 0; k < w; ++k) h[i * w + k] = T(scale * hash01(mix(seed, u64(g[i])), u64(k) + 3));
  return oh::Read<T>(h.write());
}
oh::Bytes some(oh::Mesh& m, int d, u64 seed, int per_cent) {
  auto g = oh::HostRead<oh::GO>(m.globals(d));
  oh::HostWrite<oh::I8> h(g.size());
  for (int i = 0; i < g.size(); ++i) h[i] = oh::I8(mix(seed, u64(g[i])) % 100 < u64(per_cent));
  return oh::Bytes(h.write());
}
// the model entities of the mesh, the same list on every rank
std::vector<oh::ClassPair> model(oh::Mesh& m) {
  std::vector<oh::ClassPair> out;
  auto sets = box_sets(m.dim());
  for (auto& s : sets)
    for (auto& c : s.second) {
      out.push_back(c);
      out.push_back({c.dim, c.id + 50});
      if (c.dim > 0) out.push_back({c.dim - 1, c.id + 100});
    }
  return out;
}
std::vector<oh::ClassPair> some_of(std::vector<oh::ClassPair> const& all, Rng& r) {
  std::vector<oh::ClassPair> out;
  int n = int(r.range(0, 4));
  while (n--) out.push_back(all[r.below(all.size())]);
  return out;
}
// ---- by definition, on one rank ----
using V = std::array<double, 3>;
V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
V operator*(double s, V a) { return {s * a[0], s * a[1], s * a[2]}; }
double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V cross(V a, V b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double len(V a) { return std::sqrt(dot(a, a)); }
struct Plain {  // what the mesh is made of
  int dim;
  std::vector<V> x;
  std::vector<std::vector<int>> verts[4];  // sorted
  std::vector<int> cdim[4];
  explicit Plain(oh::Mesh& m) : dim(m.dim()) {
    auto c = oh::HostRead<oh::Real>(m.coords());
    for (int v = 0; v < m.nverts(); ++v) {
      V p{0, 0, 0};
      for (int k = 0; k < dim; ++k) p[std::size_t(k)] = c[v * dim + k];
      x.push_back(p);
    }
    for (int d = 0; d <= dim; ++d) {
      auto cd = oh::HostRead<oh::I8>(m.get_array<oh::I8>(d, "class_dim"));
      auto ev = oh::HostRead<oh::LO>(d ? m.ask_verts_of(d) : oh::LOs(m.nverts(), 0, 1));
      int deg = m.nents(d) ? ev.size() / m.nents(d) : 1;
      for (int i = 0; i < m.nents(d); ++i) {
        std::vector<int> v(&ev[i * deg], &ev[i * deg] + deg);
        std::sort(v.begin(), v.end());
        verts[d].push_back(v);
        cdim[d].push_back(cd[i]);
      }
    }
  }
  bool has(int d, int i, int d2, int j) const {
    auto &a = verts[d][std::size_t(i)], &b = verts[d2][std::size_t(j)];
    return std::includes(a.begin(), a.end(), b.begin(), b.end());
  }
  int find(std::vector<int> v) const {  // an edge
    std::sort(v.begin(), v.end());
    for (std::size_t i = 0; i < verts[v.size() - 1].size(); ++i)
      if (verts[v.size() - 1][i] == v) return int(i);
    return -1;
  }
};
void check_marks(Plain const& q, int from, oh::Bytes a, int to, oh::Bytes got, oh::Bytes all) {
  auto h = oh::HostRead<oh::I8>(a), g = oh::HostRead<oh::I8>(got);
  for (int i = 0; i < g.size(); ++i) {
    bool any = false, every = true;
    for (int j = 0; j < h.size(); ++j)
      if (from < to ? q.has(to, i, from, j) : q.has(from, j, to, i)) any = any || h[j], every = every && h[j];
    if (bool(g[i]) != any) violate("derived-marks", "marks of dimension " + std::to_string(from) + " spread wrongly to dimension " + std::to_string(to));
    if (to > from && bool(oh::HostRead<oh::I8>(all)[i]) != every) violate("derived-marks", "entities of dimension " + std::to_string(to) + " whose parts are all marked are found wrongly");
  }
}
// the distance of boundaries across element i, as far as its bridges tell
void check_pad(Plain const& q, std::vector<bool> const& br, int d, int i, double got) {
  auto& v = q.verts[d][std::size_t(i)];
  auto X = [&](int k) { return q.x[std::size_t(v[std::size_t(k)])]; };
  auto B = [&](int a, int b) { return bool(br[std::size_t(q.find({v[std::size_t(a)], v[std::size_t(b)]}))]); };
  std::vector<double> sure, maybe;
  double eps = 1e-7;
  auto add = [&](double h, double inside) {  // inside: how far within its bounds
    if (inside > eps) sure.push_back(h);
    else if (inside > -eps) maybe.push_back(h);
  };
  bool last = false;  // triangles tell one of several
  if (d == 1 && B(0, 1)) sure.push_back(len(X(1) - X(0)));
  if (d == 2) {
    last = true;
    for (int o = 0; o < 3; ++o) {
      int a = (o + 1) % 3, b = (o + 2) % 3;
      if (!B(o, a) || !B(o, b)) continue;
      V ab = X(b) - X(a), oa = X(a) - X(o);
      double t = -dot(ab, oa) / dot(ab, ab);
      add(len(oa + t * ab), std::min(t, 1 - t));
    }
  }
  if (d == 3) {
    int nb = 0;
    for (int a = 0; a < 4; ++a)
      for (int b = a + 1; b < 4; ++b) nb += B(a, b);
    for (int k = 1; k < 4 && nb == 4; ++k) {
      int a = 0, b = k, c = k == 1 ? 2 : 1, e = 6 - k - c;
      if (B(a, b) || B(c, e)) continue;
      // the common perpendicular of two lines
      V u = X(b) - X(a), w = X(e) - X(c), r = X(a) - X(c);
      double uu = dot(u, u), uw = dot(u, w), ww = dot(w, w), ur = dot(u, r), wr = dot(w, r), den = uu * ww - uw * uw;
      double s = (uw * wr - ww * ur) / den, t = (uu * wr - uw * ur) / den;
      add(len(r + s * u - t * w), std::min(std::min(s, 1 - s), std::min(t, 1 - t)));
    }
    for (int o = 0; o < 4; ++o) {
      int f[3], n = 0;
      bool all = true;
      for (int a = 0; a < 4; ++a)
        if (a != o) f[n++] = a, all = all && B(o, a);
      if (!all) continue;
      V ab = X(f[1]) - X(f[0]), ac = X(f[2]) - X(f[0]), nn = cross(ab, ac), p = X(o) - X(f[0]);
      double h = std::fabs(dot(nn, p)) / len(nn), b1 = dot(cross(p, ac), nn) / dot(nn, nn), b2 = dot(cross(ab, p), nn) / dot(nn, nn);
      add(h, std::min(std::min(b1, b2), 1 - b1 - b2));
    }
  }
  auto near = [&](double a) { return std::fabs(a - got) <= 1e-6 * (1 + std::fabs(a)); };
  double best = sure.empty() ? -1 : *std::min_element(sure.begin(), sure.end());
  bool ok = near(best);
  for (double h : maybe) ok = ok || (near(h) && (best < 0 || h <= best + 1e-6 || last));
  for (double h : sure) ok = ok || (last && near(h));
  if (!ok) violate("derived-distance", "the distance of boundaries across an element of dimension " + std::to_string(d) + " is " + exact(got) + " instead of " + exact(best));
}
// the weights of vertex normals and tangents are those that make them exact on spheres and circles
void check_round(oh::Mesh& m) {
  int dim = m.dim();
  auto x = oh::HostRead<oh::Real>(m.coords());
  double lo[3], hi[3];
  for (int k = 0; k < dim; ++k) {
    lo[k] = 1e300, hi[k] = -1e300;
    for (int v = 0; v < m.nverts(); ++v) lo[k] = std::min(lo[k], x[v * dim + k]), hi[k] = std::max(hi[k], x[v * dim + k]);
    lo[k] = m.comm()->allreduce(lo[k], OMEGA_H_MIN), hi[k] = m.comm()->allreduce(hi[k], OMEGA_H_MAX);
  }
  oh::HostWrite<oh::Real> y(m.nverts() * dim);
  std::vector<V> out(std::size_t(m.nverts()), V{{0, 0, 0}});
  for (int v = 0; v < m.nverts(); ++v) {
    double s = 0;
    for (int k = 0; k < dim; ++k) {
      out[std::size_t(v)][std::size_t(k)] = 2 * (x[v * dim + k] - lo[k]) / (hi[k] - lo[k]) - 1;
      s += out[std::size_t(v)][std::size_t(k)] * out[std::size_t(v)][std::size_t(k)];
    }
    s = std::sqrt(s);
    for (int k = 0; k < dim; ++k) y[v * dim + k] = s > 1e-9 ? (out[std::size_t(v)][std::size_t(k)] /= s) : 0;
  }
  auto c = m;
  c.set_coords(oh::Reals(y.write()));
  // sides and vertices of the outside; the vertices a rank owns have all their sides here
  auto sides_m = oh::mark_exposed_sides(&c);
  auto sides_s = c.sync_array(dim - 1, sides_m, 1);
  auto sides = oh::collect_marked(sides_s);
  auto verts = oh::collect_marked(oh::mark_down(&c, dim - 1, 0, sides_s));
  auto sh = oh::HostRead<oh::LO>(sides), vh = oh::HostRead<oh::LO>(verts);
  auto n = oh::get_side_vectors(&c, sides);
  auto nv = oh::HostRead<oh::Real>(oh::get_side_vert_normals(&c, sides, n, verts));
  auto nh = oh::HostRead<oh::Real>(n);
  auto sv = oh::HostRead<oh::LO>(c.ask_verts_of(dim - 1));
  std::vector<int> sign(std::size_t(c.nverts()), 0);  // 2: do not ask
  for (int i = 0; i < sh.size(); ++i) {
    double least = 1, d[3] = {0, 0, 0};
    V e[3];
    for (int a = 0; a < dim; ++a) {
      auto v = sv[sh[i] * dim + a];
      for (int k = 0; k < dim; ++k) d[a] += nh[i * dim + k] * out[std::size_t(v)][std::size_t(k)];
      e[a] = out[std::size_t(sv[sh[i] * dim + (a + 1) % dim])] - out[std::size_t(v)];
      least = std::min(least, len(e[a]));
    }
    bool slim = least < 1e-3 || (dim == 3 && len(cross(e[0], e[1])) < 1e-3 * len(e[0]) * len(e[1]));
    for (int a = 0; a < dim; ++a) {
      auto& t = sign[std::size_t(sv[sh[i] * dim + a])];
      int now = slim || std::fabs(d[a]) < 0.05 ? 2 : d[a] > 0 ? 1 : -1;
      t = t == 0 || t == now ? now : 2;
    }
  }
  auto own = oh::HostRead<oh::I8>(c.owned(0));
  auto expect = [&](char const* what, oh::HostRead<oh::Real> const& got, bool across) {
    for (int i = 0; i < vh.size(); ++i) {
      auto v = std::size_t(vh[i]);
      int t = sign[v];
      if (!own[int(v)] || t == 0 || t == 2) continue;
      V want = across ? V{{-out[v][1], out[v][0], 0}} : double(t) * out[v];
      double d = 0;
      for (int k = 0; k < dim; ++k) d += got[i * dim + k] * want[std::size_t(k)];
      if (across) d = std::fabs(d);
      if (!(std::fabs(d - 1) < 1e-6)) violate("derived-round", std::string(what) + " makes an angle with the true one, of cosine " + exact(d));
    }
  };
  expect(dim == 3 ? "the normal of a sphere" : "the normal of a circle", nv, false);
  if (dim == 2) {
    auto t = oh::get_curv_edge_tangents(&c, sides);
    expect("the tangent of a circle", oh::HostRead<oh::Real>(oh::get_curv_vert_tangents(&c, sides, t, verts)), true);
  }
}
void check_pinch(Plain const& q, int d, int i, double got) {
  auto& v = q.verts[d][std::size_t(i)];
  auto X = [&](int k) { return q.x[std::size_t(v[std::size_t(k)])]; };
  auto C = [&](std::vector<int> w) {
    for (auto& k : w) k = v[std::size_t(k)];
    return q.cdim[w.size() - 1][std::size_t(q.find(w))];
  };
  double best = -1;
  auto add = [&](V a, V b) {
    double c = std::acos(std::max(-1.0, std::min(1.0, dot(a, b) / (len(a) * len(b)))));
    if (best < 0 || c < best) best = c;
  };
  if (d == 2)
    for (int o = 0; o < 3; ++o) {
      int a = (o + 1) % 3, b = (o + 2) % 3;
      if (C({o}) == 0 && C({o, a}) == 1 && C({o, b}) == 1) add(X(a) - X(o), X(b) - X(o));
    }
  if (d == 3)
    for (int a = 0; a < 4; ++a)
      for (int b = a + 1; b < 4; ++b) {
        int c = 0;
        while (c == a || c == b) ++c;
        int e = 6 - a - b - c;
        if (C({a, b}) != 1 || C({a, b, c}) != 2 || C({a, b, e}) != 2) continue;
        V t = (1 / len(X(b) - X(a))) * (X(b) - X(a)), p = X(c) - X(a), r = X(e) - X(a);
        add(p - dot(p, t) * t, r - dot(r, t) * t);
      }
  if (std::fabs(best - got) > 1e-6) violate("derived-angle", "the angle of a pinched element of dimension " + std::to_string(d) + " is " + exact(got) + " instead of " + exact(best));
}
// the same mesh turned, scaled and moved
struct Motion {
  double s = 1;
  V row[3], t;
  Motion(int dim, Rng& r) {
    s = 0.5 + 2 * double(r.below(100)) / 100;
    double a = dim > 1 ? 6.28 * double(r.below(1000)) / 1000 : 0, b = dim == 3 ? 3.1 * double(r.below(1000)) / 1000 : 0;
    row[0] = {std::cos(a), -std::sin(a), 0};
    row[1] = {std::cos(b) * std::sin(a), std::cos(b) * std::cos(a), -std::sin(b)};
    row[2] = {std::sin(b) * std::sin(a), std::sin(b) * std::cos(a), std::cos(b)};
    t = {double(r.range(-8, 8)) / 2, double(r.range(-8, 8)) / 2, dim == 3 ? double(r.range(-8, 8)) / 2 : 0};
  }
  V turn(V p) const { return {dot(row[0], p), dot(row[1], p), dot(row[2], p)}; }
  oh::Reals turned(int dim, oh::Reals a) const { return map(dim, a, false); }
  oh::Reals moved(int dim, oh::Reals a) const { return map(dim, a, true); }
  oh::Reals map(int dim, oh::Reals a, bool all) const {
    auto h = oh::HostRead<oh::Real>(a);
    oh::HostWrite<oh::Real> w(h.size());
    for (int i = 0; i < h.size() / dim; ++i) {
      V p{0, 0, 0};
      for (int k = 0; k < dim; ++k) p[std::size_t(k)] = h[i * dim + k];
      p = turn(p);
      if (all) p = s * p + t;
      for (int k = 0; k < dim; ++k) w[i * dim + k] = p[std::size_t(k)];
    }
    return w.write();
  }
};
void expect_close(std::string const& what, oh::Reals a, oh::Reals b, int w, bool even, double tol) {
  auto x = oh::HostRead<oh::Real>(a), y = oh::HostRead<oh::Real>(b);
  Field f;
  f.even = even, f.tol = tol;
  bool ok = x.size() == y.size();
  for (int i = 0; ok && i < x.size(); i += w) {
    std::vector<double> u(&x[i], &x[i] + w), v(&y[i], &y[i] + w);
    if (!Deriver::same(f, u, v)) violate("derived-motion", what + " of a turned, scaled and moved mesh is " + Deriver::text(v) + " instead of " + Deriver::text(u));
  }
  if (!ok) violate("derived-motion", what + " of a moved mesh has another size");
}
oh::Reals traces(int dim, oh::Reals a) {
  auto h = oh::HostRead<oh::Real>(a);
  int w = oh::symm_ncomps(dim);
  oh::HostWrite<oh::Real> t(h.size() / w);
  for (int i = 0; i < t.size(); ++i) {
    t[i] = 0;
    for (int k = 0; k < dim; ++k) t[i] += h[i * w + k];
  }
  return t.write();
}
void derive(Deriver& d, Op const& op) {
  auto& m = d.m;
  u64 s = mix(u64(op.arg(0)), 7);
  Rng r(s);
  int dim = m.dim(), k = int(op.arg(1));
  auto const& n = op.name;
  bool simplex = m.family() == OMEGA_H_SIMPLEX;
  bool gh = op.arg(2) > 0;  // some fields need their neighbours
  if (gh) m.set_parting(OMEGA_H_GHOSTED, int(op.arg(2)), false);
  bool alone = d.e.world->size() == 1;
  if (n == "random") {
    int e = int(r.range(0, dim));
    i64 counter = r.range(0, 9);
    auto a = oh::unit_uniform_random_reals_from_globals(m.globals(e), i64(s % 1000), counter);
    auto h = oh::HostRead<oh::Real>(a);
    for (int i = 0; i < h.size(); ++i)
      if (!(h[i] >= 0 && h[i] <= 1)) violate("derived-range", "a random number between zero and one is " + exact(h[i]));
    d.field("random numbers", e, a);
  } else if (n == "marks") {
    std::unique_ptr<Plain> q(alone ? new Plain(m) : nullptr);
    for (int e = 0; e <= dim; ++e) {
      auto a = some(m, e, s + u64(e), k);
      if (q)
        for (int to = 0; to <= dim; ++to)
          if (to != e) check_marks(*q, e, a, to, oh::mark_adj(&m, e, to, a), to > e ? oh::mark_up_all(&m, e, to, a) : oh::Bytes());
      if (alone && oh::count_owned_marks(&m, e, a) != oh::collect_marked(a).size()) violate("derived-marks", "marks are counted wrongly");
      for (int to = 0; to <= dim; ++to) {
        d.field("marks spread from dimension " + std::to_string(e), to, oh::mark_adj(&m, e, to, a));
        if (to > e) d.field("marks of entities all of whose parts of dimension " + std::to_string(e) + " are marked", to, oh::mark_up_all(&m, e, to, a));
      }
      d.value("the number of marks of dimension " + std::to_string(e), double(oh::count_owned_marks(&m, e, a)));
    }
    if (gh) {
      d.field("marks spread by layers", dim, oh::mark_dual_layers(&m, some(m, dim, s, k), int(r.range(1, 3))));
      if (simplex && dim > 1 && !m.has_tag(0, "metric")) oh::add_implied_isos_tag(&m);
      if (simplex && dim > 1) d.field("layers around slivers", dim, oh::mark_sliver_layers(&m, 0.3 + 0.5 * double(r.below(100)) / 100, int(r.range(0, 2))));
    }
  } else if (n == "class") {
    auto all = model(m);
    for (int e = 0; e <= dim; ++e) {
      for (int c = e; c <= dim; ++c) d.field("marks of class dimension " + std::to_string(c), e, oh::mark_by_class_dim(&m, e, c));
      auto one = all[r.below(all.size())];
      if (alone) {
        auto cd = oh::HostRead<oh::I8>(m.get_array<oh::I8>(e, "class_dim"));
        auto ci = oh::HostRead<oh::ClassId>(m.get_array<oh::ClassId>(e, "class_id"));
        auto by = oh::HostRead<oh::I8>(oh::mark_by_class(&m, e, one.dim, one.id)), by_dim = oh::HostRead<oh::I8>(oh::mark_by_class_dim(&m, e, one.dim));
        for (int i = 0; i < m.nents(e); ++i)
          if (bool(by[i]) != (cd[i] == one.dim && ci[i] == one.id) || bool(by_dim[i]) != (cd[i] == one.dim)) violate("derived-marks", "entities of a class are marked wrongly");
        if (one.dim > e) {
          Plain q(m);
          auto top = oh::mark_by_class(&m, one.dim, one.dim, one.id);
          check_marks(q, one.dim, top, e, oh::mark_class_closure(&m, e, one.dim, one.id), oh::Bytes());
        }
      }
      if (one.dim >= e) {
        d.field("marks of a class", e, oh::mark_by_class(&m, e, one.dim, one.id));
        d.field("marks of the closure of a class", e, oh::mark_class_closure(&m, e, one.dim, one.id));
      }
      auto many = some_of(all, r);
      auto closure = oh::mark_class_closures(&m, e, many);
      d.field("marks of the closures of several classes", e, closure);
      // by definition: part of some entity classified on one of them
      oh::Bytes want(m.nents(e), 0);
      for (auto& c : many)
        if (c.dim >= e) want = oh::lor_each(want, oh::mark_class_closure(&m, e, c.dim, c.id));
      d.field("closures of classes one by one", e, want);
      auto a = oh::HostRead<oh::I8>(closure), b = oh::HostRead<oh::I8>(want);
      for (int i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) violate("derived-closure", "the marks of several classes are not those of each of them");
      if (gh && e == 0) {
        oh::Graph up[4];
        up[0] = oh::Graph(oh::LOs(m.nverts() + 1, 0, 1), oh::LOs(m.nverts(), 0, 1));
        for (int c = 1; c <= dim; ++c) up[c] = m.ask_up(0, c);
        d.field("marks of nodes of several classes", 0, oh::mark_class_closures(&m, many, up), 1, false);
      }
    }
  } else if (n == "assoc") {
    oh::Assoc as;
    if (k % 2)
      as = oh::get_box_assoc(dim);
    else {
      if (d.e.rank == 0) {
        std::ofstream f("sets.txt", std::ios::binary);
        auto all = model(m);
        char const* kinds[3] = {"element set", "side set", "node set"};
        for (int t = 0; t < 3; ++t) {
          auto pairs = some_of(all, r);
          f << kinds[t] << " S" << t << ' ' << pairs.size() << '\n';
          for (auto& c : pairs) f << c.dim << ' ' << c.id << '\n';
        }
      }
      m.comm()->barrier();
      as = oh::read_assoc_file("sets.txt");
      m.comm()->barrier();
    }
    auto sets = oh::invert(&m, as);
    for (std::size_t t = 0; t < 3; ++t) {
      if (sets[t].size() != as[t].size()) violate("derived-sets", "there are " + std::to_string(sets[t].size()) + " sets of entities for " + std::to_string(as[t].size()) + " names");
      for (auto& x : sets[t]) {
        int e = oh::get_assoc_dim(t, dim);
        auto marks = oh::mark_image(x.second, m.nents(e));
        d.field("the set " + x.first, e, marks);
        oh::Bytes want(m.nents(e), 0);
        for (auto& c : as[t][x.first])
          if (c.dim >= e) want = oh::lor_each(want, oh::mark_class_closure(&m, e, c.dim, c.id));
        auto a = oh::HostRead<oh::I8>(marks), b = oh::HostRead<oh::I8>(want);
        for (int i = 0; i < a.size(); ++i)
          if (a[i] != b[i]) violate("derived-sets", "the set " + x.first + " is not made of the closures of its classes");
      }
    }
  } else if (n == "surface") {
    if (!simplex || dim == 1 || !gh) return;
    check_round(m);
    auto info = oh::get_surface_info(&m);
    double tol = 1e-9;
    auto spread = [&](oh::Reals a, oh::LOs at, int w) { return oh::map_onto(a, at, m.nverts(), 0.0, w); };
    if (dim == 3) {
      d.field("surface normals", 0, spread(info.surf_vert_normals, info.surf_vert2vert, 3), 3, true, false, tol);
      d.field("second fundamental forms", 0, spread(info.surf_vert_IIs, info.surf_vert2vert, 3), 3, true, false, 1e-6);
    }
    d.field("tangents of curves", 0, spread(info.curv_vert_tangents, info.curv_vert2vert, dim), dim, true, true, tol);
    d.field("curvatures of curves", 0, spread(info.curv_vert_curvatures, info.curv_vert2vert, 1), 1, true, false, 1e-6);
    d.field("curvatures", 0, oh::get_vert_curvatures(&m, info), 1, true, false, 1e-6);
    if (alone) {
      Motion mo(dim, r);
      auto c = m;
      c.set_coords(mo.moved(dim, m.coords()));
      auto other = oh::get_surface_info(&c);
      if (dim == 3) expect_close("the surface normal", mo.turned(dim, info.surf_vert_normals), other.surf_vert_normals, dim, false, 1e-7);
      expect_close("the tangent", mo.turned(dim, info.curv_vert_tangents), other.curv_vert_tangents, dim, true, 1e-7);
      expect_close("the size of curvature metrics", traces(dim, oh::get_curvature_metrics(&m, 0.3)),
          oh::multiply_each_by(traces(dim, oh::get_curvature_metrics(&c, 0.3)), mo.s * mo.s), 1, false, 5e-3);
      expect_close("the curvature", oh::get_vert_curvatures(&m, info), oh::multiply_each_by(oh::get_vert_curvatures(&c, other), mo.s), 1, true, 5e-3);
    }
    d.field("curvature metrics", 0, oh::get_curvature_metrics(&m, 0.3), oh::symm_ncomps(dim), true, false, 1e-6);
  } else if (n == "confined") {
    if (!simplex) return;
    auto br = oh::find_bridge_edges(&m);
    if (alone) {
      Plain q(m);
      auto h = oh::HostRead<oh::I8>(br);
      std::vector<bool> b;
      for (int i = 0; i < h.size(); ++i) {
        auto& v = q.verts[1][std::size_t(i)];
        bool want = q.cdim[1][std::size_t(i)] != q.cdim[0][std::size_t(v[0])] && q.cdim[1][std::size_t(i)] != q.cdim[0][std::size_t(v[1])];
        if (bool(h[i]) != want) violate("derived-marks", "an edge between boundaries is marked wrongly");
      }
      // any edges may be taken for bridges
      oh::Bytes any = k % 3 == 0 ? br : some(m, 1, s + 9, 75);
      if (k % 3 == 1) {  // between two kinds of vertices
        oh::HostWrite<oh::I8> w(m.nedges());
        for (int i = 0; i < w.size(); ++i) {
          auto& v = q.verts[1][std::size_t(i)];
          w[i] = oh::I8((mix(s, u64(v[0])) ^ mix(s, u64(v[1]))) >> 20 & 1);
        }
        any = oh::Bytes(w.write());
      }
      auto ah = oh::HostRead<oh::I8>(any);
      for (int i = 0; i < ah.size(); ++i) b.push_back(ah[i]);
      for (int e = 1; e <= dim; ++e) {
        auto p = oh::HostRead<oh::Real>(oh::get_pad_dists(&m, e, any));
        for (int i = 0; i < p.size(); ++i) check_pad(q, b, e, i, p[i]);
        if (e < 2) continue;
        auto a = oh::HostRead<oh::Real>(oh::get_pinched_angles(&m, e));
        for (int i = 0; i < a.size(); ++i) check_pinch(q, e, i, a[i]);
      }
    }
    d.field("bridges", 1, br);
    for (int e = 1; e <= dim; ++e) d.field("distances of close boundaries", e, oh::get_pad_dists(&m, e, br), 1, true, false, 1e-9);
    for (int e = 2; e <= dim; ++e) d.field("angles of pinched elements", e, oh::get_pinched_angles(&m, e), 1, true, false, 1e-9);
  } else if (n == "implied") {
    if (!simplex || !gh) return;
    if (alone) {
      Motion mo(dim, r);
      auto c = m;
      c.set_coords(mo.moved(dim, m.coords()));
      auto a = oh::get_pure_implied_metrics(&m), b = oh::get_pure_implied_metrics(&c);
      expect_close("the size of implied metrics", traces(dim, a), oh::multiply_each_by(traces(dim, b), mo.s * mo.s), 1, false, 1e-5);
      expect_close("the implied size", oh::get_pure_implied_isos(&m), oh::multiply_each_by(oh::get_pure_implied_isos(&c), mo.s * mo.s), 1, false, 1e-5);
    }
    d.field("implied metrics", 0, oh::get_pure_implied_metrics(&m), oh::symm_ncomps(dim), true, false, 1e-7);
    d.field("implied sizes", 0, oh::get_pure_implied_isos(&m), 1, true, false, 1e-7);
  } else if (n == "reduce") {
    int e = int(r.range(0, dim)), w = int(r.range(1, 3));
    auto was = noise<oh::I64>(m, e, w, s, 1000);
    if (m.has_tag(e, "red")) m.remove_tag(e, "red");
    m.add_tag(e, "red", w, was);
    m.reduce_tag(e, "red", k % 3 == 0 ? OMEGA_H_MIN : k % 3 == 1 ? OMEGA_H_MAX : OMEGA_H_SUM);
    // every copy contributed the value its global number gives
    auto got = oh::HostRead<oh::I64>(m.get_array<oh::I64>(e, "red"));
    auto x = oh::HostRead<oh::I64>(was);
    auto ones = oh::HostRead<oh::I32>(m.reduce_array(e, oh::Read<oh::I32>(m.nents(e), 1), 1, OMEGA_H_SUM));
    auto own = oh::HostRead<oh::I8>(m.owned(e));
    i64 mine = 0, held = 0;
    for (int i = 0; i < m.nents(e); ++i) {
      ++held;
      if (!own[i]) continue;
      mine += ones[i];
      for (int c = 0; c < w; ++c) {
        i64 want = x[i * w + c] * (k % 3 == 2 ? ones[i] : 1);
        if (got[i * w + c] != want) violate("derived-reduce", "reducing equal values of copies gives " + std::to_string(got[i * w + c]) + " instead of " + std::to_string(want));
      }
    }
    mine = m.comm()->allreduce(oh::I64(mine), OMEGA_H_SUM), held = m.comm()->allreduce(oh::I64(held), OMEGA_H_SUM);
    if (mine != held) violate("derived-reduce", "the copies counted by reduction are " + std::to_string(mine) + ", there are " + std::to_string(held));
    m.sync_tag(e, "red");
    if (k % 3 != 2) d.field("reduced and synchronised tags", e, m.get_array<oh::I64>(e, "red"), w);
    m.remove_tag(e, "red");
    // owned parts of arrays and subsets
    d.value("entities owned by all ranks of dimension " + std::to_string(e), double(m.comm()->allreduce(oh::I64(m.nents_owned(e)), OMEGA_H_SUM)));
    if (m.nents_owned(e)) {
      double got_ratio = m.ghosted_ratio(e), want_ratio = double(m.nents(e)) / m.nents_owned(e);
      if (std::fabs(got_ratio - want_ratio) > 1e-12) violate("derived-ratio", "the ratio of all to owned entities is " + exact(got_ratio) + " instead of " + exact(want_ratio));
    }
    auto in = some(m, e, s + 5, 50);
    auto at = oh::collect_marked(in);
    auto sub = oh::Read<oh::I64>(oh::unmap(at, was, w));
    auto whole = oh::HostRead<oh::I64>(m.owned_subset_array(e, sub, at, oh::I64(-1), w));
    auto part = oh::HostRead<oh::I64>(m.owned_array(e, was, w));
    auto mk = oh::HostRead<oh::I8>(in);
    std::vector<i64> want, want2;
    for (int i = 0; i < m.nents(e); ++i)
      for (int c = 0; c < w && own[i]; ++c) want.push_back(mk[i] ? x[i * w + c] : -1), want2.push_back(x[i * w + c]);
    if (!m.could_be_shared(e)) {  // documented: the subset itself
      want.clear();
      for (int i = 0; i < m.nents(e); ++i)
        for (int c = 0; c < w && mk[i]; ++c) want.push_back(x[i * w + c]);
    }
    bool ok = std::size_t(whole.size()) == want.size() && std::size_t(part.size()) == want2.size();
    for (std::size_t i = 0; ok && i < want.size(); ++i) ok = whole[int(i)] == want[i];
    for (std::size_t i = 0; ok && i < want2.size(); ++i) ok = part[int(i)] == want2[i];
    if (!ok) violate("derived-owned", "the owned part of an array is not what its owners hold");
    auto subsync = m.sync_subset_array(e, sub, at, oh::I64(-1), w);
    auto ss = oh::HostRead<oh::I64>(subsync), s0 = oh::HostRead<oh::I64>(sub);
    ok = ss.size() == s0.size();
    for (int i = 0; ok && i < ss.size(); ++i) ok = ss[i] == s0[i];
    if (!ok) violate("derived-owned", "synchronising a synchronised subset changes it");
    // a subset each rank chooses for itself: what the owner did not choose gets the default
    oh::Write<oh::I8> mine_w(m.nents(e));
    for (int i = 0; i < m.nents(e); ++i) mine_w.set(i, oh::I8(r.flip(0.6)));
    auto mine_m = oh::Bytes(mine_w);
    auto at2 = oh::collect_marked(mine_m);
    auto at2h = oh::HostRead<oh::LO>(at2);
    auto owner_in = oh::HostRead<oh::I8>(m.sync_array(e, mine_m, 1));
    auto got2 = oh::HostRead<oh::I64>(m.sync_subset_array(e, oh::Read<oh::I64>(oh::unmap(at2, was, w)), at2, oh::I64(-77), w));
    for (int i = 0; i < at2h.size(); ++i)
      for (int c = 0; c < w; ++c) {
        auto want = owner_in[at2h[i]] ? x[at2h[i] * w + c] : -77;
        if (got2[i * w + c] != want) violate("derived-owned", "a synchronised subset has " + std::to_string(got2[i * w + c]) + " instead of " + std::to_string(want));
      }
    // copies that contribute different values
    auto me = m.comm()->rank();
    auto low = oh::HostRead<oh::I32>(m.sync_array(e, m.reduce_array(e, oh::Read<oh::I32>(m.nents(e), me), 1, OMEGA_H_MIN), 1));
    auto top = oh::HostRead<oh::I32>(m.sync_array(e, m.reduce_array(e, oh::Read<oh::I32>(m.nents(e), me), 1, OMEGA_H_MAX), 1));
    auto sum = oh::HostRead<oh::I32>(m.sync_array(e, m.reduce_array(e, oh::Read<oh::I32>(m.nents(e), me), 1, OMEGA_H_SUM), 1));
    auto cnt = oh::HostRead<oh::I32>(m.sync_array(e, m.reduce_array(e, oh::Read<oh::I32>(m.nents(e), 1), 1, OMEGA_H_SUM), 1));
    for (int i = 0; i < m.nents(e); ++i) {
      auto l = low[i], h = top[i], n2 = cnt[i], s2 = sum[i];
      bool good = l <= me && me <= h && l >= 0 && h < m.comm()->size() && n2 >= 1;
      if (n2 == 1) good = good && l == me && h == me && s2 == me;
      else good = good && l < h && (n2 > 2 || s2 == l + h) && s2 >= l * (n2 - 1) + h && s2 <= l + h * (n2 - 1);
      if (!good) violate("derived-reduce", "rank " + std::to_string(me) + " finds least " + std::to_string(l) + ", greatest " + std::to_string(h) + " and sum " + std::to_string(s2) + " of the ranks of " + std::to_string(n2) + " copies");
    }
  } else if (n == "plot") {
    int e = int(r.range(0, dim)), w = int(r.range(1, 3));
    auto data = noise<oh::Real>(m, e, w, s, 1.0);
    std::string sep = r.flip(0.5) ? " " : ", ";
    double a = 1 + double(r.below(9)), b = double(r.below(5)) / 4;
    double const dir[3][3] = {{a, 0, 0}, {a, b, 0}, {a, b, 1}}, org[3][3] = {{b, 0, 0}, {b, 1, 0}, {b, 1, a}}, mid[3][3] = {{b, 0, 0}, {b, a, 0}, {b, a, 0}};
    if (k % 2 == 0) {
      if (dim == 1) oh::write_linear_scatterplot<1>("plot.txt", &m, e, data, oh::vector_1(a), oh::vector_1(b), sep);
      if (dim == 2) oh::write_linear_scatterplot<2>("plot.txt", &m, e, data, oh::vector_2(a, b), oh::vector_2(b, 1), sep);
      if (dim == 3) oh::write_linear_scatterplot<3>("plot.txt", &m, e, data, oh::vector_3(a, b, 1), oh::vector_3(b, 1, a), sep);
    } else {
      if (dim == 1) oh::write_radial_scatterplot<1>("plot.txt", &m, e, data, oh::vector_1(b), sep);
      if (dim == 2) oh::write_radial_scatterplot<2>("plot.txt", &m, e, data, oh::vector_2(b, a), sep);
      if (dim == 3) oh::write_radial_scatterplot<3>("plot.txt", &m, e, data, oh::vector_3(b, a, 0), sep);
    }
    m.comm()->barrier();
    if (m.comm()->size() == 1) {
      // each entity once: where its middle lies along the line or from the point, then its values
      std::vector<std::vector<double>> rows;
      std::stringstream t(slurp("plot.txt"));
      for (std::string l; std::getline(t, l);) {
        std::vector<double> row;
        for (std::size_t at = 0; at <= l.size();) {
          auto to = std::min(l.find(sep, at), l.size());
          row.push_back(std::strtod(l.substr(at, to - at).c_str(), nullptr));
          at = to + sep.size();
        }
        rows.push_back(row);
      }
      auto xs = oh::HostRead<oh::Real>(m.coords()), vals = oh::HostRead<oh::Real>(data);
      auto ev = e ? oh::HostRead<oh::LO>(m.ask_verts_of(e)) : oh::HostRead<oh::LO>(oh::LOs(m.nverts(), 0, 1));
      int per = m.nents(e) ? ev.size() / m.nents(e) : 1;
      for (int i = 0; i < m.nents(e); ++i) {
        double along = 0, dist = 0;
        for (int j = 0; j < dim; ++j) {
          double c = 0;
          for (int q = 0; q < per; ++q) c += xs[ev[i * per + q] * dim + j];
          c /= per;
          along += (c - org[dim - 1][j]) * dir[dim - 1][j];
          dist += (c - mid[dim - 1][j]) * (c - mid[dim - 1][j]);
        }
        double want = k % 2 == 0 ? along : std::sqrt(dist);
        bool found = false;
        for (std::size_t q = 0; q < rows.size() && !found; ++q) {
          auto& row = rows[q];
          if (row.size() != std::size_t(w) + 1 || std::fabs(row[0] - want) > 1e-9 * (1 + std::fabs(want))) continue;
          found = true;
          for (int c = 0; c < w; ++c) found = found && row[std::size_t(c) + 1] == vals[i * w + c];
          if (found) rows.erase(rows.begin() + std::ptrdiff_t(q));
        }
        if (!found) violate("plot-rows", "no line of the plot has entity " + std::to_string(i) + " of dimension " + std::to_string(e) + " at " + exact(want));
      }
    }
    i64 total = m.nglobal_ents(e);
    auto& f = d.slot("the plot of dimension " + std::to_string(e));
    if (d.e.rank == 0) {
      std::stringstream t(slurp("plot.txt"));
      for (std::string l; std::getline(t, l);) f.lines.push_back(l);
      std::sort(f.lines.begin(), f.lines.end());
      if (i64(f.lines.size()) != total) violate("plot-lines", f.what + " written by " + std::to_string(m.comm()->size()) + " ranks has " + std::to_string(f.lines.size()) + " lines for " + std::to_string(total) + " entities");
    }
    m.comm()->barrier();
  }
}
bool derives(std::string const& n) {
  for (auto x : {"random", "marks", "class", "assoc", "surface", "confined", "implied", "reduce", "plot"})
    if (n == x) return true;
  return false;
}
Fields run_deriv(Program const& p, bool test_world, int n) {
  Fields all;
  FsCfg f;
  f.p_short_write = double(p.get("sw")) / 100;
  f.p_short_read = double(p.get("sr")) / 100;
  f.p_eintr = double(p.get("ei")) / 100;
  fs_reset(f);
  must_run(p, test_world, n, "deriving", [&](Env& e) {
    auto m = make_box(e.world, p);
    Deriver d{e, m, all};
    for (auto& op : p.ops)
      if (derives(op.name))
        derive(d, op);
      else
        exec_op(e, m, p, op);
  });
  fs_reset(FsCfg());
  return all;
}
void deriv_prog(Program const& p) {
  int n = int(p.get("nranks"));
  auto one = run_deriv(p, false, 1);
  auto many = run_deriv(p, true, n);
  if (one.size() != many.size()) violate("derived-differs", "one rank derives " + std::to_string(one.size()) + " fields, " + std::to_string(n) + " ranks " + std::to_string(many.size()));
  for (std::size_t i = 0; i < one.size(); ++i) {
    auto &a = one[i], &b = many[i];
    auto on = a.what + " on " + std::to_string(n) + " ranks ";
    if (a.what != b.what) violate("derived-differs", on + "is " + b.what);
    if (a.lines != b.lines) {
      std::size_t k = 0;
      while (k < a.lines.size() && k < b.lines.size() && a.lines[k] == b.lines[k]) ++k;
      violate("derived-differs", on + "has " + std::to_string(b.lines.size()) + " lines, on one rank " + std::to_string(a.lines.size()) + ", different from line " + std::to_string(k));
    }
    if (a.at.size() != b.at.size()) violate("derived-differs", on + "has " + std::to_string(b.at.size()) + " values, on one rank " + std::to_string(a.at.size()));
    for (auto& x : a.at) {
      auto it = b.at.find(x.first);
      if (it == b.at.end()) violate("derived-differs", on + "has no value for entity " + std::to_string(x.first));
      if (!Deriver::same(a, x.second, it->second)) violate("derived-differs", on + "is " + Deriver::text(it->second) + " for entity " + std::to_string(x.first) + ", on one rank " + Deriver::text(x.second));
    }
  }
}
AddScenario d22({"D22", "derive", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 7, 0.8);
      if (p.cfg["nranks"] < 2) p.cfg["nranks"] = r.range(2, 7);
      gen_box(p, r, 1);
      p.cfg.erase("verbose");
      if (r.flip(0.15) && p.cfg["dim"] > 1) p.cfg["hyper"] = 1, p.cfg["sym"] = 0, p.cfg.erase("curve");
      if (r.flip(0.3)) p.cfg["sw"] = r.range(5, 60);
      if (r.flip(0.3)) p.cfg["sr"] = r.range(5, 60);
      if (r.flip(0.3)) p.cfg["ei"] = r.range(5, 40);
      int k = int(r.range(1, 4));
      for (int i = 0; i < k; ++i) {
        if (!p.get("hyper") && r.flip(0.15)) gen_ops(p, r, 1, "adr");
        gen_ops(p, r, int(r.range(0, 2)), "pbg");
        int n = int(r.range(1, 3));
        while (n--) {
          i64 s = r.range(0, 99999), a = r.range(1, 99), g = r.flip(0.7) ? r.range(1, 2) : 0;
          switch (r.below(10)) {
            case 0: p.ops.push_back({"random", {s, a, g}}); break;
            case 1: p.ops.push_back({"marks", {s, a, g}}); break;
            case 2: p.ops.push_back({"class", {s, a, g}}); break;
            case 3: p.ops.push_back({"assoc", {s, a, g}}); break;
            case 4: p.ops.push_back({"confined", {s, a, g}}); break;
            case 5: p.ops.push_back({"implied", {s, a, g}}); break;
            case 6: p.ops.push_back({"reduce", {s, a, g}}); break;
            case 7: p.ops.push_back({"plot", {s, a, g}}); break;
            default: p.ops.push_back({"surface", {s, a, std::max<i64>(g, 1)}}); break;
          }
        }
      }
      return p;
    },
    deriv_prog, [] {
      auto m = mesh_shrink();
      m["hyper"] = {0};
      m["sw"] = m["sr"] = m["ei"] = {0};
      return m;
    }()});
}  // namespace
