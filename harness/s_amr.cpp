// D20: adaptive refinement of quadrilateral and hexahedral meshes against a
// tree of cells.
#include <Omega_h_amr.hpp>
#include <Omega_h_box.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_hypercube.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <set>
#include "meshprog.hpp"

namespace {
using sim::mix;
using sim::violate;
constexpr int kFine = 64;  // length of the side of a coarsest cell
constexpr int kDeepest = 5;

using Cell = std::array<int, 4>;  // level, position in cells of that level
using Box = std::array<int, 6>;   // lowest corner and extents, in finest units
struct Tree {
  int dim = 2;
  int n[3] = {1, 1, 1};
  std::map<Cell, bool> cells;  // is it a leaf
  static int size(int level) { return kFine >> level; }
  Box box(Cell const& c) const {
    Box b{};
    for (int k = 0; k < dim; ++k) b[std::size_t(k)] = c[std::size_t(k + 1)] * size(c[0]), b[std::size_t(3 + k)] = size(c[0]);
    return b;
  }
  Cell cell(Box const& b) const {
    Cell c{};
    int s = b[3];
    while (size(c[0]) > s) ++c[0];
    for (int k = 0; k < dim; ++k) c[std::size_t(k + 1)] = b[std::size_t(k)] / s;
    return c;
  }
  std::vector<Cell> children(Cell const& c) const {
    std::vector<Cell> o;
    for (int k = 0; k < 1 << dim; ++k) {
      Cell q{};
      q[0] = c[0] + 1;
      for (int a = 0; a < dim; ++a) q[std::size_t(a + 1)] = 2 * c[std::size_t(a + 1)] + (k >> a & 1);
      o.push_back(q);
    }
    return o;
  }
  void plant() {
    for (int i = 0; i < n[0]; ++i)
      for (int j = 0; j < n[1]; ++j)
        for (int k = 0; k < n[2]; ++k) cells[Cell{0, i, j, dim > 2 ? k : 0}] = true;
  }
  void refine(Cell const& c) {
    cells[c] = false;
    for (auto& q : children(c)) cells[q] = true;
  }
  bool prunable(Cell const& c) const {
    auto i = cells.find(c);
    if (i == cells.end() || i->second) return false;
    for (auto& q : children(c))
      if (!cells.at(q)) return false;
    return true;
  }
  void prune(Cell const& c) {
    for (auto& q : children(c)) cells.erase(q);
    cells[c] = true;
  }
  // the cell of this or a lower level over the given cell
  bool leaf_over(Cell c, Cell* found) const {
    for (;;) {
      auto i = cells.find(c);
      if (i != cells.end()) {
        *found = c;
        return true;
      }
      if (c[0] == 0) return false;
      --c[0];
      for (int a = 0; a < dim; ++a) c[std::size_t(a + 1)] /= 2;
    }
  }
  // across sides of at least this dimension
  template <class F>
  void each_neighbour(Cell const& c, int bridge, F f) const {
    for (int code = 0; code < (dim > 2 ? 27 : 9); ++code) {
      Cell q = c;
      int moved = 0, x = code;
      bool in = true;
      for (int a = 0; a < dim; ++a, x /= 3) {
        int s = x % 3 - 1;
        moved += s != 0;
        q[std::size_t(a + 1)] += s;
        in = in && q[std::size_t(a + 1)] >= 0 && q[std::size_t(a + 1)] < n[a] << c[0];
      }
      if (!in || !moved || moved > dim - bridge) continue;
      Cell o;
      if (leaf_over(q, &o)) f(o);
    }
  }
  bool balanced(int bridge) const {
    bool ok = true;
    for (auto& kv : cells)
      if (kv.second) each_neighbour(kv.first, bridge, [&](Cell const& o) {
          if (cells.at(o) && kv.first[0] - o[0] > 1) ok = false;
        });
    return ok;
  }
  // the leaves to refine so that the tree stays balanced
  std::set<Cell> closure(std::set<Cell> marks, int bridge) const {
    std::vector<Cell> todo(marks.begin(), marks.end());
    while (!todo.empty()) {
      auto c = todo.back();
      todo.pop_back();
      each_neighbour(c, bridge, [&](Cell const& o) {
        if (cells.at(o) && o[0] < c[0] && marks.insert(o).second) todo.push_back(o);
      });
    }
    return marks;
  }
};
struct Want {
  int level = 0;
  bool leaf = true;
};
void sides(Box const& b, int dim, std::vector<Box>& out) {
  // of every dimension, itself included
  int total = 1;
  for (int a = 0; a < dim; ++a) total *= 3;
  for (int code = 0; code < total; ++code) {
    Box q = b;
    int x = code;
    for (int a = 0; a < dim; ++a, x /= 3) {
      if (x % 3 == 2) continue;
      if (x % 3 == 1) q[std::size_t(a)] += b[std::size_t(3 + a)];
      q[std::size_t(3 + a)] = 0;
    }
    out.push_back(q);
  }
}
int box_dim(Box const& b) { return (b[3] > 0) + (b[4] > 0) + (b[5] > 0); }
std::string show(Box const& b) {
  std::string s = "[";
  for (int a = 0; a < 3; ++a) s += (a ? " x " : "") + std::to_string(double(b[std::size_t(a)]) / kFine) + ".." + std::to_string(double(b[std::size_t(a)] + b[std::size_t(3 + a)]) / kFine);
  return s + "]";
}
// what it lies in among the entities one level up, or of the coarsest level
Box cover(Box const& b, int dim, int unit) {
  Box q = b;
  for (int a = 0; a < dim; ++a) {
    auto lo = b[std::size_t(a)] / unit * unit;
    bool pinned = b[std::size_t(3 + a)] == 0 && lo == b[std::size_t(a)];
    q[std::size_t(a)] = lo;
    q[std::size_t(3 + a)] = pinned ? 0 : unit;
  }
  return q;
}
int vertex_level(Box const& b, int dim) {
  for (int l = 0;; ++l) {
    bool on = true;
    for (int a = 0; a < dim; ++a) on = on && b[std::size_t(a)] % Tree::size(l) == 0;
    if (on) return l;
  }
}
// where every entity of the mesh lies
std::vector<Box> boxes_of(oh::Mesh& m, int d, std::string const& when) {
  int dim = m.dim();
  auto x = oh::HostRead<oh::Real>(m.coords());
  int deg = oh::element_degree(OMEGA_H_HYPERCUBE, d, 0);
  auto ev = oh::HostRead<oh::LO>(d ? m.ask_verts_of(d) : oh::LOs(m.nverts(), 0, 1));
  std::vector<Box> out;
  for (int i = 0; i < m.nents(d); ++i) {
    Box lo{}, b{};
    for (int a = 0; a < dim; ++a) {
      int mn = 1 << 30, mx = -1;
      for (int k = 0; k < deg; ++k) {
        double v = x[ev[i * deg + k] * dim + a] * kFine;
        if (v != std::floor(v)) violate("amr-shape", when + ": a vertex does not lie on the grid");
        mn = std::min(mn, int(v)), mx = std::max(mx, int(v));
      }
      b[std::size_t(a)] = mn, b[std::size_t(3 + a)] = mx - mn;
    }
    (void)lo;
    int s = 0;
    for (int a = 0; a < dim; ++a) {
      if (!b[std::size_t(3 + a)]) continue;
      if (s && b[std::size_t(3 + a)] != s) violate("amr-shape", when + ": an entity of dimension " + std::to_string(d) + " is not a cube: " + show(b));
      s = b[std::size_t(3 + a)];
    }
    if (box_dim(b) != d) violate("amr-shape", when + ": an entity of dimension " + std::to_string(d) + " is degenerate: " + show(b));
    out.push_back(b);
  }
  return out;
}
struct Origin {
  std::map<Box, std::pair<int, int>> cls;  // of the coarsest entities
  std::map<Box, double> inh;
};
void check_tree(oh::Mesh& m, Tree const& t, Origin const& o, bool relations, std::string const& when) {
  int dim = m.dim();
  std::map<Box, Want> want;
  for (auto& kv : t.cells) {
    std::vector<Box> q;
    sides(t.box(kv.first), dim, q);
    for (auto& b : q) {
      auto& w = want[b];
      w.level = box_dim(b) ? kv.first[0] : vertex_level(b, dim);
      if (!kv.second && box_dim(b)) w.leaf = false;
    }
  }
  std::vector<std::vector<Box>> at;
  for (int d = 0; d <= dim; ++d) {
    at.push_back(boxes_of(m, d, when));
    std::set<Box> seen;
    std::size_t n = 0;
    for (auto& kv : want) n += box_dim(kv.first) == d;
    for (auto& b : at.back()) {
      if (!want.count(b)) violate("amr-entities", when + ": there is an entity no cell has: " + show(b));
      if (!seen.insert(b).second) violate("amr-entities", when + ": two entities of dimension " + std::to_string(d) + " at " + show(b));
    }
    if (seen.size() != n)
      for (auto& kv : want)
        if (box_dim(kv.first) == d && !seen.count(kv.first)) violate("amr-entities", when + ": the entity at " + show(kv.first) + " is missing");
    auto g = oh::HostRead<oh::GO>(m.globals(d));
    std::set<i64> gs;
    for (int i = 0; i < g.size(); ++i) gs.insert(g[i]);
    if (gs.size() != n || (n && (*gs.begin() != 0 || *gs.rbegin() != i64(n) - 1))) violate("amr-entities", when + ": global numbers of dimension " + std::to_string(d) + " are not 0.." + std::to_string(n - 1));
  }
  auto x = oh::HostRead<oh::Real>(m.coords());
  oh::HostRead<oh::LO> downs[4][4], vs[4];
  for (int h = 0; h <= dim; ++h) {
    vs[h] = oh::HostRead<oh::LO>(h ? m.ask_verts_of(h) : oh::LOs(m.nverts(), 0, 1));
    for (int l = 0; l < h; ++l) downs[h][l] = oh::HostRead<oh::LO>(m.ask_down(h, l).ab2b);
  }
  for (int d = 0; d <= dim; ++d) {
    auto lv = oh::HostRead<oh::Byte>(m.ask_levels(d));
    auto lf = oh::HostRead<oh::Byte>(m.ask_leaves(d));
    auto cd = oh::HostRead<oh::I8>(m.get_array<oh::I8>(d, "class_dim"));
    auto ci = oh::HostRead<oh::I32>(m.get_array<oh::I32>(d, "class_id"));
    auto in = oh::HostRead<oh::Real>(m.get_array<oh::Real>(d, "inh"));
    auto in3 = oh::HostRead<oh::GO>(m.get_array<oh::GO>(d, "inh3"));
    auto par = m.ask_parents(d);
    auto pi = oh::HostRead<oh::LO>(par.parent_idx);
    auto pc = oh::HostRead<oh::I8>(par.codes);
    for (int i = 0; i < m.nents(d); ++i) {
      auto& b = at[std::size_t(d)][std::size_t(i)];
      auto& w = want[b];
      if (lv[i] != w.level) violate("amr-level", when + ": the entity at " + show(b) + " has level " + std::to_string(lv[i]) + " instead of " + std::to_string(w.level));
      if (d && (lf[i] != 0) != w.leaf) violate("amr-leaf", when + ": the entity at " + show(b) + (w.leaf ? " is not marked as a leaf" : " is marked as a leaf"));
      auto root = cover(b, dim, kFine);
      auto c = o.cls.at(root);
      if (cd[i] != c.first || ci[i] != c.second) violate("amr-class", when + ": the entity at " + show(b) + " is classified on " + std::to_string(cd[i]) + "/" + std::to_string(ci[i]) + " instead of " + std::to_string(c.first) + "/" + std::to_string(c.second));
      bool three = true;
      for (int k = 0; k < 3; ++k) three = three && in3[3 * i + k] == i64(o.inh.at(root) * 1e15) + k;
      if (in[i] != o.inh.at(root) || !three) violate("amr-inherit", when + ": the entity at " + show(b) + " did not inherit its value");
      if (!relations) continue;
      if (w.level == 0) {
        if (pi[i] != -1) violate("amr-parent", when + ": the coarsest entity at " + show(b) + " has a parent");
        continue;
      }
      auto pb = cover(b, dim, Tree::size(w.level - 1));
      int pd = box_dim(pb);
      if (pi[i] < 0) violate("amr-parent", when + ": the entity at " + show(b) + " has no parent");
      if (oh::amr::code_parent_dim(pc[i]) != pd || pi[i] >= m.nents(pd) || at[std::size_t(pd)][std::size_t(pi[i])] != pb) violate("amr-parent", when + ": the parent of the entity at " + show(b) + " is not the one at " + show(pb));
      // which part of the parent it is
      int which = oh::amr::code_which_child(pc[i]);
      if (which < 0 || which >= oh::hypercube_split_degree(pd, d)) violate("amr-parent", when + ": the entity at " + show(b) + " is no known part of its parent");
      std::set<Box> corners, mine;
      int deg = oh::element_degree(OMEGA_H_HYPERCUBE, d, 0);
      auto& verts = vs[d];
      for (int k = 0; k < deg; ++k) {
        mine.insert(at[0][std::size_t(verts[i * deg + k])]);
        Box mid{};
        Box lb = pb;
        if (d) {
          auto low = oh::hypercube_split_template(pd, d, which, k);
          lb = at[std::size_t(low.dim)][std::size_t(low.dim == pd ? pi[i] : downs[pd][low.dim][pi[i] * oh::hypercube_degree(pd, low.dim) + low.which_down])];
        }
        for (int a = 0; a < dim; ++a) mid[std::size_t(a)] = lb[std::size_t(a)] + lb[std::size_t(3 + a)] / 2;
        corners.insert(mid);
      }
      if (corners != mine) violate("amr-parent", when + ": the entity at " + show(b) + " is not the part of its parent that its code names");
    }
    if (relations && d)
      for (int cdim = 0; cdim <= d; ++cdim) {
        auto ch = m.ask_children(d, cdim);
        auto a = oh::HostRead<oh::LO>(ch.a2ab), ab = oh::HostRead<oh::LO>(ch.ab2b);
        auto cc = oh::HostRead<oh::I8>(ch.codes);
        auto cp = m.ask_parents(cdim);
        auto cpi = oh::HostRead<oh::LO>(cp.parent_idx);
        auto cpc = oh::HostRead<oh::I8>(cp.codes);
        for (int i = 0; i < m.nents(d); ++i) {
          auto& w = want[at[std::size_t(d)][std::size_t(i)]];
          int n = a[i + 1] - a[i];
          if (n != (w.leaf ? 0 : oh::hypercube_split_degree(d, cdim))) violate("amr-children", when + ": the entity at " + show(at[std::size_t(d)][std::size_t(i)]) + " has " + std::to_string(n) + " children of dimension " + std::to_string(cdim));
          std::set<int> codes;
          for (int k = a[i]; k < a[i + 1]; ++k) {
            codes.insert(cc[k]);
            if (cpi[ab[k]] != i || cpc[ab[k]] != cc[k] || oh::amr::code_parent_dim(cc[k]) != d) violate("amr-children", when + ": children and parents disagree at " + show(at[std::size_t(d)][std::size_t(i)]));
          }
          if (int(codes.size()) != n) violate("amr-children", when + ": two children are the same part of the entity at " + show(at[std::size_t(d)][std::size_t(i)]));
        }
      }
  }
  if (m.has_tag(0, "lin")) {
    auto f = oh::HostRead<oh::Real>(m.get_array<oh::Real>(0, "lin"));
    for (int v = 0; v < m.nverts(); ++v) {
      double e = 3;
      for (int a = 0; a < dim; ++a) e += (a + 1) * x[v * dim + a];
      if (f[2 * v] != e || f[2 * v + 1] != -2 * e) violate("amr-field", when + ": a linear field is " + exact(f[2 * v]) + " instead of " + exact(e) + " at " + show(at[0][std::size_t(v)]));
    }
  }
}
oh::Mesh amr_box(Env& e, Program const& p, Origin* o) {
  int dim = int(p.get("dim"));
  int n[3] = {int(p.get("nx")), int(p.get("ny")), dim > 2 ? int(p.get("nz")) : 0};
  oh::Mesh m(e.lib.get());
  if (e.rank == 0) {
    oh::build_box_internal(&m, OMEGA_H_HYPERCUBE, n[0], n[1], n[2], n[0], n[1], n[2]);
    oh::reorder_by_hilbert(&m);
    oh::classify_box(&m, n[0], n[1], n[2], n[0], n[1], n[2]);
    if (p.get("region") > 0 && p.get("region") < n[0]) split_regions(m, double(p.get("region")));
  }
  m.set_comm(e.world);
  int nr = e.world->size();
  if (p.get("balance", 1) && (nr & (nr - 1)) == 0)
    m.balance();
  else
    repartition(m, int(p.get("part")), u64(p.get("partseed")));
  for (int d = 0; d <= dim; ++d) {
    auto bs = boxes_of(m, d, "the box");
    auto g = oh::HostRead<oh::GO>(m.globals(d));
    oh::HostWrite<oh::Real> w(m.nents(d));
    auto cd = oh::HostRead<oh::I8>(m.get_array<oh::I8>(d, "class_dim"));
    auto ci = oh::HostRead<oh::I32>(m.get_array<oh::I32>(d, "class_id"));
    for (int i = 0; i < w.size(); ++i) {
      w[i] = hash01(u64(g[i]), u64(d));
      if (o) o->cls[bs[std::size_t(i)]] = {cd[i], ci[i]}, o->inh[bs[std::size_t(i)]] = w[i];
    }
    oh::HostWrite<oh::GO> w3(3 * m.nents(d));
    for (int i = 0; i < w3.size(); ++i) w3[i] = i64(w[i / 3] * 1e15) + i % 3;
    m.add_tag(d, "inh", 1, oh::Reals(w.write()));
    m.add_tag(d, "inh3", 3, oh::Read<oh::GO>(w3.write()));
  }
  auto x = oh::HostRead<oh::Real>(m.coords());
  oh::HostWrite<oh::Real> f(2 * m.nverts());
  for (int v = 0; v < m.nverts(); ++v) {
    double s = 3;
    for (int a = 0; a < dim; ++a) s += (a + 1) * x[v * dim + a];
    f[2 * v] = s, f[2 * v + 1] = -2 * s;
  }
  m.add_tag(0, "lin", 2, oh::Reals(f.write()));
  return m;
}
oh::TransferOpts amr_opts() {
  oh::TransferOpts t;
  t.type_map["inh"] = OMEGA_H_INHERIT;
  t.type_map["inh3"] = OMEGA_H_INHERIT;
  t.type_map["lin"] = OMEGA_H_LINEAR_INTERP;
  return t;
}
// which cells an operation picks
bool picks(Cell const& c, u64 seed, int kind, Tree const& t) {
  double h = hash01(seed, mix(u64(c[0]), mix(u64(c[1]), mix(u64(c[2]), u64(c[3])))));
  if (kind == 0) return h < 0.3;
  if (kind == 1) return h < 0.8;
  if (kind == 2) return h < 0.08;
  // around a point
  double r = 0;
  for (int a = 0; a < t.dim; ++a) {
    double at = hash01(seed, 50 + u64(a)) * t.n[a], x = (c[std::size_t(a + 1)] + 0.5) / (1 << c[0]);
    r = std::max(r, std::fabs(at - x));
  }
  return r < 0.75 / (1 << c[0]);
}
void amr_steps(Program const& p) {
  must_run(p, true, 1, "refining a tree", [&](Env& e) {
    Origin o;
    auto m = amr_box(e, p, &o);
    int dim = m.dim();
    Tree t;
    t.dim = dim;
    t.n[0] = int(p.get("nx")), t.n[1] = int(p.get("ny")), t.n[2] = dim > 2 ? int(p.get("nz")) : 1;
    t.plant();
    std::size_t cap = dim == 2 ? 700 : 900;
    for (std::size_t k = 0; k < p.ops.size(); ++k) {
      auto& op = p.ops[k];
      u64 s = mix(u64(op.arg(0)), 11);
      std::string when = "after operation " + std::to_string(k + 1) + " (" + op.name + ")";
      auto bs = boxes_of(m, dim, when);
      if (op.name == "refine") {
        std::set<Cell> marks;
        for (auto& kv : t.cells)
          if (kv.second && kv.first[0] < kDeepest && picks(kv.first, s, int(op.arg(1)), t)) marks.insert(kv.first);
        int bridge = op.arg(2) == 2 ? 1 : dim - 1;
        bool enforce = op.arg(2) != 0, was = t.balanced(bridge);
        oh::HostWrite<oh::Byte> w(m.nelems());
        // marks on cells refined already mean nothing
        for (int i = 0; i < w.size(); ++i) {
          auto c = t.cell(bs[std::size_t(i)]);
          w[i] = oh::Byte(marks.count(c) || (!t.cells.at(c) && hash01(s, u64(i)) < 0.2));
        }
        oh::Bytes b(w.write());
        if (enforce && was) {
          b = oh::amr::enforce_2to1_refine(&m, bridge, b);
          auto all = t.closure(marks, bridge);
          auto got = oh::HostRead<oh::Byte>(b);
          for (int i = 0; i < got.size(); ++i) {
            auto c = t.cell(bs[std::size_t(i)]);
            if ((got[i] != 0) != (all.count(c) != 0)) violate("amr-2to1", when + ": the cell at " + show(bs[std::size_t(i)]) + (got[i] ? " is refined without need" : " must be refined with its neighbours but is not"));
          }
          marks = all;
        }
        if (t.cells.size() + marks.size() * (std::size_t(1) << dim) > cap) continue;
        oh::amr::refine(&m, b, amr_opts());
        for (auto& c : marks) t.refine(c);
        if (enforce && was && !t.balanced(bridge)) violate("amr-2to1", when + ": neighbours differ by more than one level");
      } else if (op.name == "derefine") {
        std::set<Cell> marks;
        for (auto& kv : t.cells)
          if (t.prunable(kv.first) && picks(kv.first, s, int(op.arg(1)), t)) marks.insert(kv.first);
        oh::HostWrite<oh::Byte> w(m.nelems());
        // and marks on leaves mean nothing here
        for (int i = 0; i < w.size(); ++i) {
          auto c = t.cell(bs[std::size_t(i)]);
          w[i] = oh::Byte(marks.count(c) || (t.cells.at(c) && hash01(s, u64(i)) < 0.2));
        }
        oh::amr::derefine(&m, oh::Bytes(w.write()), amr_opts());
        for (auto& c : marks) t.prune(c);
      } else if (op.name == "osh") {
        auto before = take_image(m);
        oh::binary::write("amr.osh", &m);
        m = oh::Mesh(e.lib.get());
        oh::binary::read("amr.osh", e.world, &m);
        auto d = same_part(before, take_image(m));
        if (!d.empty()) violate("amr-file", when + ": the mesh read differs from the mesh written: " + d);
      } else if (op.name == "copy") {
        oh::Mesh c = m;
        m = c;
      } else if (op.name == "mode") {
        m.set_parting(op.arg(0) ? OMEGA_H_GHOSTED : OMEGA_H_ELEM_BASED);
      } else if (op.name == "order") {
        oh::reorder_by_globals(&m);
      }
      check_tree(m, t, o, true, when);
      check_local(m, when);
    }
    if (p.get("leaves")) {
      oh::amr::remove_non_leaf_uses(&m);
      std::set<Box> want, got;
      for (auto& kv : t.cells)
        if (kv.second) {
          std::vector<Box> q;
          sides(t.box(kv.first), dim, q);
          want.insert(q.begin(), q.end());
        }
      std::size_t n = 0;
      for (int d = 0; d <= dim; ++d)
        for (auto& b : boxes_of(m, d, "the leaves")) got.insert(b), ++n;
      if (got != want || n != got.size()) violate("amr-leaves", "keeping the leaves leaves other entities than theirs");
    }
  });
}
// the first refinement of a distributed mesh
void amr_first(Program const& p) {
  int n = int(p.get("nranks"));
  std::vector<PartImg> one(1), many(static_cast<std::size_t>(n));
  auto body = [&](Env& e, std::vector<PartImg>& out) {
    auto m = amr_box(e, p, nullptr);
    Tree t;
    t.dim = m.dim();
    t.n[0] = int(p.get("nx")), t.n[1] = int(p.get("ny")), t.n[2] = t.dim > 2 ? int(p.get("nz")) : 1;
    auto bs = boxes_of(m, t.dim, "the box");
    oh::HostWrite<oh::Byte> w(m.nelems());
    for (int i = 0; i < w.size(); ++i) w[i] = oh::Byte(picks(t.cell(bs[std::size_t(i)]), mix(u64(p.get("mseed")), 11), int(p.get("kind")), t));
    oh::amr::refine(&m, oh::Bytes(w.write()), amr_opts());
    out[std::size_t(e.rank)] = take_image(m);
    if (!p.get("osh")) return;
    auto family = [&] {
      std::vector<std::vector<int>> all;
      for (int d = 0; d <= m.dim(); ++d) {
        auto par = m.ask_parents(d);
        auto i = oh::HostRead<oh::LO>(par.parent_idx);
        auto c = oh::HostRead<oh::I8>(par.codes);
        std::vector<int> one;
        for (int k = 0; k < i.size(); ++k) one.push_back(i[k]), one.push_back(i[k] < 0 ? 0 : c[k]);
        all.push_back(one);
      }
      return all;
    };
    auto before = family();
    oh::binary::write("amr.osh", &m);
    m = oh::Mesh(e.lib.get());
    oh::binary::read("amr.osh", e.world, &m);
    auto d = same_part(out[std::size_t(e.rank)], take_image(m));
    if (!d.empty()) violate("amr-file", "the refined mesh read differs from the mesh written: " + d);
    if (family() != before) violate("amr-file", "the parents of the refined mesh read differ from those written");
  };
  must_run(p, false, 1, "refining", [&](Env& e) { body(e, one); });
  must_run(p, true, n, "refining", [&](Env& e) { body(e, many); });
  CheckOpts o;
  o.geometry = false;
  check_parts(many, o, "the refined mesh");
  auto d = compare(canonical(one), canonical(many));
  if (!d.empty()) violate("amr-ranks", "refining on " + std::to_string(n) + " ranks gives another mesh than on one: " + d);
}
void amr_gen_box(Program& p, Rng& r) {
  p.cfg["dim"] = r.range(2, 3);
  p.cfg["nx"] = r.range(1, p.cfg["dim"] == 2 ? 4 : 3);
  p.cfg["ny"] = r.range(1, p.cfg["dim"] == 2 ? 3 : 2);
  p.cfg["nz"] = r.range(1, 2);
  p.cfg["region"] = r.flip(0.7) ? 0 : r.range(1, 3);
}
AddScenario d20a({"D20", "amr_steps", 3,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 1, 0.5);
      p.cfg["nranks"] = 1;
      amr_gen_box(p, r);
      p.cfg["leaves"] = r.flip(0.3);
      int enforce = r.flip(0.3) ? 0 : int(r.range(1, 2));
      int k = int(r.range(1, 7));
      for (int i = 0; i < k; ++i) {
        i64 s = r.range(0, 99999);
        int w = int(r.below(10));
        if (w < 5)
          p.ops.push_back({"refine", {s, r.range(0, 3), enforce}});
        else if (w < 8)
          p.ops.push_back({"derefine", {s, r.range(0, 3)}});
        else if (r.flip(0.4))
          p.ops.push_back({"osh", {}});
        else if (r.flip(0.4))
          p.ops.push_back({"mode", {r.range(0, 1)}});
        else if (r.flip(0.5))
          p.ops.push_back({"order", {}});
        else
          p.ops.push_back({"copy", {}});
      }
      return p;
    },
    amr_steps, [] {
      auto m = mesh_shrink();
      m["leaves"] = {0};
      m["nranks"] = {1};
      m["dim"] = {2};
      return m;
    }()});
AddScenario d20b({"D20", "amr_first", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 7, 0.9);
      p.cfg["nranks"] = r.range(2, 7);
      amr_gen_box(p, r);
      p.cfg["balance"] = (p.cfg["nranks"] & (p.cfg["nranks"] - 1)) ? 0 : r.flip(0.4);
      p.cfg["part"] = r.range(0, 5);
      p.cfg["partseed"] = r.range(0, 9999);
      p.cfg["mseed"] = r.range(0, 99999);
      p.cfg["kind"] = r.range(0, 3);
      p.cfg["osh"] = r.flip(0.3);
      return p;
    },
    amr_first, [] {
      auto m = mesh_shrink();
      m["dim"] = {2};
      return m;
    }()});
}  // namespace
