#include "mesh.hpp"
#include <Omega_h_adj.hpp>
#include <Omega_h_box.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_migrate.hpp>
#include <Omega_h_align.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_shape.hpp>
#include <algorithm>
#include <cmath>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using sim::violate;

double hash01(u64 a, u64 b) { return double(sim::mix(a, b) >> 11) / 9007199254740992.0; }

template <class T>
static void grab(oh::TagBase const* tb, DimImg& di) {
  auto a = oh::HostRead<T>(oh::as<T>(tb)->array());
  TagImg t;
  t.type = tb->type();
  t.ncomps = tb->ncomps();
  t.width = sizeof(T) * std::size_t(tb->ncomps());
  t.data.resize(std::size_t(a.size()) * sizeof(T));
  if (a.size()) std::memcpy(t.data.data(), a.data(), t.data.size());
  if (di.tags.count(tb->name())) violate("mesh-tags", "duplicate tag " + tb->name());
  di.tags[tb->name()] = std::move(t);
}
PartImg take_image(oh::Mesh& m) {
  PartImg p;
  p.dim = m.dim();
  p.family = m.family();
  p.parting = m.parting();
  p.nlayers = m.nghost_layers();
  p.nranks = m.comm()->size();
  p.has_parents = m.has_any_parents();
  for (auto& kv : m.class_sets) {
    auto& w = p.class_sets[kv.first];
    for (auto& c : kv.second) w.push_back({c.dim, c.id});
  }
  for (int d = 0; d <= p.dim; ++d) {
    auto& di = p.d[d];
    auto g = oh::HostRead<oh::GO>(m.globals(d));
    for (int i = 0; i < g.size(); ++i) di.gids.push_back(g[i]);
    auto ow = m.ask_owners(d);
    auto r = oh::HostRead<oh::I32>(ow.ranks);
    auto x = oh::HostRead<oh::LO>(ow.idxs);
    for (int i = 0; i < r.size(); ++i) di.own_rank.push_back(r[i]), di.own_idx.push_back(x[i]);
    for (int i = 0; i < m.ntags(d); ++i) {
      auto tb = m.get_tag(d, i);
      switch (tb->type()) {
        case OMEGA_H_I8: grab<oh::I8>(tb, di); break;
        case OMEGA_H_I32: grab<oh::I32>(tb, di); break;
        case OMEGA_H_I64: grab<oh::I64>(tb, di); break;
        case OMEGA_H_F64: grab<oh::Real>(tb, di); break;
      }
    }
  }
  auto& vg = p.d[0].gids;
  p.d[0].deg = 1;
  p.d[0].verts = vg;
  for (int d = 1; d <= p.dim; ++d) {
    auto& di = p.d[d];
    di.deg = oh::element_degree(m.family(), d, 0);
    auto ev = oh::HostRead<oh::LO>(m.ask_verts_of(d));
    for (int i = 0; i < ev.size(); ++i) {
      if (ev[i] < 0 || std::size_t(ev[i]) >= vg.size()) violate("mesh-adjacency", "vertex index out of range");
      di.verts.push_back(vg[std::size_t(ev[i])]);
    }
    if (d > 1) {
      auto dn = oh::HostRead<oh::LO>(m.ask_down(d, d - 1).ab2b);
      di.down_deg = oh::element_degree(m.family(), d, d - 1);
      for (int i = 0; i < dn.size(); ++i) {
        if (dn[i] < 0 || std::size_t(dn[i]) >= p.d[d - 1].gids.size())
          violate("mesh-adjacency", "facet index out of range");
        di.down.push_back(p.d[d - 1].gids[std::size_t(dn[i])]);
      }
    }
  }
  return p;
}

static std::string ent(int d, i64 g) {
  static char const* nm[] = {"vertex", "edge", "face", "region"};
  return std::string(nm[d]) + " with global number " + std::to_string(g);
}
static std::string real_str(char const* p, std::size_t bytes, int type) {
  std::ostringstream o;
  o.precision(17);
  std::size_t w = type == OMEGA_H_F64 ? 8 : type == OMEGA_H_I64 ? 8 : type == OMEGA_H_I32 ? 4 : 1;
  for (std::size_t i = 0; i + w <= bytes && i < 6 * w; i += w) {
    if (i) o << ",";
    if (type == OMEGA_H_F64) {
      double v;
      std::memcpy(&v, p + i, 8);
      o << v;
    } else if (type == OMEGA_H_I64) {
      i64 v;
      std::memcpy(&v, p + i, 8);
      o << v;
    } else if (type == OMEGA_H_I32) {
      int v;
      std::memcpy(&v, p + i, 4);
      o << v;
    } else
      o << int(p[i]);
  }
  return o.str();
}

static double simplex_volume(int dim, std::vector<std::array<double, 3>> const& x) {
  auto e = [&](int i, int k) { return x[std::size_t(i)][std::size_t(k)] - x[0][std::size_t(k)]; };
  if (dim == 1) return e(1, 0);
  if (dim == 2) return 0.5 * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0));
  double d = e(1, 0) * (e(2, 1) * e(3, 2) - e(2, 2) * e(3, 1)) - e(1, 1) * (e(2, 0) * e(3, 2) - e(2, 2) * e(3, 0)) +
             e(1, 2) * (e(2, 0) * e(3, 1) - e(2, 1) * e(3, 0));
  return d / 6.0;
}

void check_parts(std::vector<PartImg> const& P, CheckOpts const& o, std::string const& when) {
  auto fail = [&](std::string const& k, std::string const& d) { violate(k, when + ": " + d); };
  int np = int(P.size());
  auto& A = P[0];
  for (int r = 0; r < np; ++r) {
    auto& B = P[std::size_t(r)];
    if (B.dim != A.dim || B.family != A.family || B.parting != A.parting || B.nlayers != A.nlayers)
      fail("mesh-meta", "ranks 0 and " + std::to_string(r) + " disagree on dimension, family or partitioning");
    if (B.class_sets != A.class_sets) fail("mesh-meta", "ranks disagree on class sets");
    for (int d = 0; d <= A.dim; ++d) {
      auto &x = A.d[d].tags, &y = B.d[d].tags;
      std::string xs, ys;
      for (auto& t : x) xs += t.first + ":" + std::to_string(t.second.type) + ":" + std::to_string(t.second.ncomps) + " ";
      for (auto& t : y) ys += t.first + ":" + std::to_string(t.second.type) + ":" + std::to_string(t.second.ncomps) + " ";
      if (xs != ys) fail("mesh-tags", "ranks 0 and " + std::to_string(r) + " hold different fields on dimension " + std::to_string(d) + ": " + xs + "/ " + ys);
      auto& D = B.d[d];
      for (auto& t : y)
        if (t.second.data.size() != t.second.width * D.n())
          fail("mesh-tags", "field " + t.first + " has the wrong size");
      if (D.own_rank.size() != D.n()) fail("mesh-owners", "owner array has the wrong size");
      if (D.verts.size() != D.n() * std::size_t(D.deg)) fail("mesh-adjacency", "connectivity has the wrong size");
    }
  }
  for (int d = 0; d <= A.dim; ++d) {
    std::unordered_map<i64, std::pair<int, int>> owner;  // gid -> owned copy
    for (int r = 0; r < np; ++r) {
      auto& D = P[std::size_t(r)].d[d];
      std::unordered_set<i64> seen;
      for (std::size_t i = 0; i < D.n(); ++i) {
        if (!seen.insert(D.gids[i]).second)
          fail("mesh-globals", "rank " + std::to_string(r) + " holds " + ent(d, D.gids[i]) + " twice");
        int orank = D.own_rank[i], oi = D.own_idx[i];
        if (orank < 0 || orank >= np || oi < 0 || std::size_t(oi) >= P[std::size_t(orank)].d[d].n())
          fail("mesh-owners", "owner of " + ent(d, D.gids[i]) + " is out of range");
        auto& O = P[std::size_t(orank)].d[d];
        if (O.gids[std::size_t(oi)] != D.gids[i])
          fail("mesh-owners", "rank " + std::to_string(r) + " says " + ent(d, D.gids[i]) + " is owned by an entity numbered " +
                                  std::to_string(O.gids[std::size_t(oi)]));
        if (O.own_rank[std::size_t(oi)] != orank || O.own_idx[std::size_t(oi)] != oi)
          fail("mesh-owners", "the owner copy of " + ent(d, D.gids[i]) + " does not own itself");
        if (orank == r && oi == int(i)) {
          if (!owner.emplace(D.gids[i], std::make_pair(r, int(i))).second)
            fail("mesh-owners", ent(d, D.gids[i]) + " is owned twice");
        }
      }
    }
    if (o.dense_globals)
      for (auto& kv : owner)
        if (kv.first < 0 || std::size_t(kv.first) >= owner.size())
          fail("mesh-globals", "global numbers of dimension " + std::to_string(d) + " are not 0.." +
                                   std::to_string(owner.size() - 1) + ": " + std::to_string(kv.first));
    for (int r = 0; r < np; ++r) {
      auto& D = P[std::size_t(r)].d[d];
      for (std::size_t i = 0; i < D.n(); ++i) {
        auto it = owner.find(D.gids[i]);
        if (it == owner.end()) fail("mesh-owners", ent(d, D.gids[i]) + " has no owner");
        auto& O = P[std::size_t(it->second.first)].d[d];
        auto oi = std::size_t(it->second.second);
        if (D.own_rank[i] != it->second.first || D.own_idx[i] != it->second.second)
          fail("mesh-owners", "copies of " + ent(d, D.gids[i]) + " disagree on its owner");
        if (!std::equal(D.verts.begin() + long(i) * D.deg, D.verts.begin() + long(i + 1) * D.deg, O.verts.begin() + long(oi) * D.deg))
          fail("mesh-copies", "copies of " + ent(d, D.gids[i]) + " have different vertices");
        if (d > 1 && !std::equal(D.down.begin() + long(i) * D.down_deg, D.down.begin() + long(i + 1) * D.down_deg, O.down.begin() + long(oi) * D.down_deg))
          fail("mesh-copies", "copies of " + ent(d, D.gids[i]) + " have different facets");
        if (o.copies_tags)
          for (auto& t : D.tags) {
            if (t.first == "vtkGhostType") continue;  // of the copy, not of the entity
            auto& u = O.tags.at(t.first);
            auto w = t.second.width;
            if (w && std::memcmp(t.second.data.data() + i * w, u.data.data() + oi * w, w) != 0)
              fail("mesh-copies", "copies of " + ent(d, D.gids[i]) + " on ranks " + std::to_string(r) + " and " +
                                      std::to_string(it->second.first) + " hold different values of field " + t.first + ": " +
                                      real_str(t.second.data.data() + i * w, w, t.second.type) + " and " +
                                      real_str(u.data.data() + oi * w, w, t.second.type));
          }
      }
    }
  }
  // downward closure, no orphans, facets match vertices
  bool simplex = A.family == OMEGA_H_SIMPLEX;
  for (int r = 0; r < np; ++r) {
    auto& B = P[std::size_t(r)];
    if (!B.has_parents)
      for (int d = 0; d < B.dim; ++d) {
        std::unordered_set<i64> used;
        auto& U = B.d[d + 1];
        auto& src = d == 0 ? U.verts : U.down;
        used.insert(src.begin(), src.end());
        for (auto g : B.d[d].gids)
          if (!used.count(g)) fail("mesh-orphan", "rank " + std::to_string(r) + " holds " + ent(d, g) + " which no local entity uses");
      }
    if (simplex && o.geometry)
      for (int d = 2; d <= B.dim; ++d) {
        auto &D = B.d[d], &L = B.d[d - 1];
        std::unordered_map<i64, std::size_t> at;
        for (std::size_t i = 0; i < L.n(); ++i) at[L.gids[i]] = i;
        for (std::size_t i = 0; i < D.n(); ++i) {
          std::set<i64> all(D.verts.begin() + long(i) * D.deg, D.verts.begin() + long(i + 1) * D.deg);
          if (int(all.size()) != D.deg) fail("mesh-adjacency", ent(d, D.gids[i]) + " repeats a vertex");
          std::set<std::set<i64>> facets;
          for (int k = 0; k < D.down_deg; ++k) {
            auto j = at.at(D.down[i * std::size_t(D.down_deg) + std::size_t(k)]);
            std::set<i64> f(L.verts.begin() + long(j) * L.deg, L.verts.begin() + long(j + 1) * L.deg);
            if (int(f.size()) != d || !std::includes(all.begin(), all.end(), f.begin(), f.end()))
              fail("mesh-adjacency", "a facet of " + ent(d, D.gids[i]) + " is not made of its vertices");
            facets.insert(f);
          }
          if (int(facets.size()) != D.down_deg) fail("mesh-adjacency", ent(d, D.gids[i]) + " repeats a facet");
        }
      }
  }
  // partitioning
  int D = A.dim;
  if (A.parting == OMEGA_H_ELEM_BASED || np == 1) {
    for (int r = 0; r < np; ++r)
      for (std::size_t i = 0; i < P[std::size_t(r)].d[D].n(); ++i)
        if (P[std::size_t(r)].d[D].own_rank[i] != r)
          fail("mesh-parting", "element-based partition, but rank " + std::to_string(r) + " holds an element it does not own");
  } else if (o.ghost_exact && np > 1) {
    // elements expected on each rank
    std::unordered_map<i64, std::vector<i64>> elem_verts;
    std::unordered_map<i64, std::vector<i64>> vert_elems;
    for (auto& B : P) {
      auto& E = B.d[D];
      for (std::size_t i = 0; i < E.n(); ++i)
        if (elem_verts.find(E.gids[i]) == elem_verts.end()) {
          auto& v = elem_verts[E.gids[i]];
          v.assign(E.verts.begin() + long(i) * E.deg, E.verts.begin() + long(i + 1) * E.deg);
          for (auto g : v) vert_elems[g].push_back(E.gids[i]);
        }
    }
    for (int r = 0; r < np; ++r) {
      auto& B = P[std::size_t(r)];
      std::set<i64> want;
      if (A.parting == OMEGA_H_GHOSTED) {
        for (std::size_t i = 0; i < B.d[D].n(); ++i)
          if (B.d[D].own_rank[i] == r) want.insert(B.d[D].gids[i]);
        for (int l = 0; l < A.nlayers; ++l) {
          std::set<i64> vs, more;
          for (auto e : want)
            for (auto v : elem_verts[e]) vs.insert(v);
          for (auto v : vs)
            for (auto e : vert_elems[v]) more.insert(e);
          want.insert(more.begin(), more.end());
        }
      } else {
        for (std::size_t i = 0; i < B.d[0].n(); ++i)
          if (B.d[0].own_rank[i] == r)
            for (auto e : vert_elems[B.d[0].gids[i]]) want.insert(e);
      }
      std::set<i64> have(B.d[D].gids.begin(), B.d[D].gids.end());
      for (auto e : want)
        if (!have.count(e)) fail("mesh-ghosts", "rank " + std::to_string(r) + " misses element " + std::to_string(e) + " of its ghost region (parting " + std::to_string(A.parting) + ", " + std::to_string(A.nlayers) + " layers)");
      for (auto e : have)
        if (!want.count(e)) fail("mesh-ghosts", "rank " + std::to_string(r) + " holds element " + std::to_string(e) + " outside its ghost region (parting " + std::to_string(A.parting) + ", " + std::to_string(A.nlayers) + " layers)");
    }
  }
  if (simplex && o.geometry && !A.has_parents) {
    // global simplicial complex: unique entities, manifold, positive volumes
    std::unordered_map<i64, std::array<double, 3>> xyz;
    for (auto& B : P) {
      auto it = B.d[0].tags.find("coordinates");
      if (it == B.d[0].tags.end()) continue;
      auto c = reinterpret_cast<double const*>(it->second.data.data());
      for (std::size_t i = 0; i < B.d[0].n(); ++i) {
        std::array<double, 3> x{0, 0, 0};
        for (int k = 0; k < it->second.ncomps; ++k) x[std::size_t(k)] = c[i * std::size_t(it->second.ncomps) + std::size_t(k)];
        xyz[B.d[0].gids[i]] = x;
      }
    }
    for (int d = 1; d <= D; ++d) {
      std::map<std::vector<i64>, i64> by_verts;
      for (auto& B : P)
        for (std::size_t i = 0; i < B.d[d].n(); ++i) {
          std::vector<i64> v(B.d[d].verts.begin() + long(i) * (d + 1), B.d[d].verts.begin() + long(i + 1) * (d + 1));
          std::sort(v.begin(), v.end());
          auto it = by_verts.emplace(v, B.d[d].gids[i]);
          if (!it.second && it.first->second != B.d[d].gids[i])
            fail("mesh-duplicate", ent(d, B.d[d].gids[i]) + " and " + std::to_string(it.first->second) + " have the same vertices");
        }
    }
    std::map<i64, int> uses;
    std::set<i64> done;
    double total = 0;
    for (auto& B : P) {
      auto& E = B.d[D];
      for (std::size_t i = 0; i < E.n(); ++i) {
        if (!done.insert(E.gids[i]).second) continue;
        if (D > 1)
          for (int k = 0; k < E.down_deg; ++k) ++uses[E.down[i * std::size_t(E.down_deg) + std::size_t(k)]];
        else
          for (int k = 0; k < 2; ++k) ++uses[E.verts[2 * i + std::size_t(k)]];
        if (xyz.empty()) continue;
        std::vector<std::array<double, 3>> x;
        for (int k = 0; k < E.deg; ++k) x.push_back(xyz.at(E.verts[i * std::size_t(E.deg) + std::size_t(k)]));
        double v = simplex_volume(D, x);
        if (!(v > 0)) fail("mesh-inverted", "element " + std::to_string(E.gids[i]) + " has volume " + std::to_string(v));
        total += v;
      }
    }
    for (auto& kv : uses)
      if (kv.second > 2) fail("mesh-nonmanifold", "a side is used by " + std::to_string(kv.second) + " elements");
    if (o.box && std::fabs(total - o.volume) > 1e-8 * o.volume) {
      std::ostringstream s;
      s.precision(17);
      s << "elements cover " << total << " of a domain of size " << o.volume;
      fail("mesh-volume", s.str());
    }
  }
}

Canon canonical(std::vector<PartImg> parts) {
  Canon c;
  c.dim = parts[0].dim;
  c.family = parts[0].family;
  for (int d = 0; d <= c.dim; ++d) {
    for (std::size_t r = 0; r < parts.size(); ++r)
      for (std::size_t i = 0; i < parts[r].d[d].n(); ++i)
        if (parts[r].d[d].own_rank[i] == int(r)) c.ents[d].push_back({parts[r].d[d].gids[i], int(r), int(i)});
    std::sort(c.ents[d].begin(), c.ents[d].end(), [](Canon::Ent const& a, Canon::Ent const& b) { return a.gid < b.gid; });
  }
  c.parts = std::move(parts);
  return c;
}

std::string compare(Canon const& a, Canon const& b, CmpOpts const& o) {
  if (a.dim != b.dim || a.family != b.family) return "dimension or family differs";
  if (a.parts[0].class_sets != b.parts[0].class_sets) return "class sets differ";
  for (int d = 0; d <= a.dim; ++d) {
    auto &x = a.ents[d], &y = b.ents[d];
    if (x.size() != y.size())
      return "number of entities of dimension " + std::to_string(d) + " differs: " + std::to_string(x.size()) + " and " + std::to_string(y.size());
    auto &ta = a.parts[0].d[d].tags, &tb = b.parts[0].d[d].tags;
    for (auto& t : ta) {
      if (std::find(o.skip.begin(), o.skip.end(), t.first) != o.skip.end()) continue;
      if (!tb.count(t.first)) return "field " + t.first + " of dimension " + std::to_string(d) + " is missing";
      if (tb.at(t.first).type != t.second.type || tb.at(t.first).ncomps != t.second.ncomps)
        return "field " + t.first + " changed its type or number of components";
    }
    for (auto& t : tb)
      if (!ta.count(t.first) && std::find(o.skip.begin(), o.skip.end(), t.first) == o.skip.end())
        return "field " + t.first + " of dimension " + std::to_string(d) + " is extra";
    for (std::size_t i = 0; i < x.size(); ++i) {
      if (x[i].gid != y[i].gid) return "global numbers of dimension " + std::to_string(d) + " differ";
      auto& A = a.parts[std::size_t(x[i].part)].d[d];
      auto& B = b.parts[std::size_t(y[i].part)].d[d];
      auto ia = std::size_t(x[i].idx), ib = std::size_t(y[i].idx);
      if (!std::equal(A.verts.begin() + long(ia) * A.deg, A.verts.begin() + long(ia + 1) * A.deg, B.verts.begin() + long(ib) * B.deg))
        return "vertices of " + ent(d, x[i].gid) + " differ";
      for (auto& t : A.tags) {
        if (std::find(o.skip.begin(), o.skip.end(), t.first) != o.skip.end()) continue;
        auto& u = B.tags.at(t.first);
        auto w = t.second.width;
        auto pa = t.second.data.data() + ia * w, pb = u.data.data() + ib * w;
        if (w == 0 || std::memcmp(pa, pb, w) == 0) continue;
        if (t.second.type == OMEGA_H_F64 && o.real_tol > 0) {
          bool ok = true;
          for (std::size_t k = 0; k < w; k += 8) {
            double p, q;
            std::memcpy(&p, pa + k, 8);
            std::memcpy(&q, pb + k, 8);
            if (!(std::fabs(p - q) <= o.real_tol * std::max(1.0, std::max(std::fabs(p), std::fabs(q))))) ok = false;
          }
          if (ok) continue;
        }
        return "field " + t.first + " of " + ent(d, x[i].gid) + " differs: " + real_str(pa, w, t.second.type) + " and " + real_str(pb, w, t.second.type);
      }
    }
  }
  return "";
}
u64 canon_hash(Canon const& c) {
  u64 h = sim::mix(u64(c.dim), u64(c.family));
  for (int d = 0; d <= c.dim; ++d)
    for (auto& e : c.ents[d]) {
      auto& D = c.parts[std::size_t(e.part)].d[d];
      h = sim::mix(h, u64(e.gid));
      h = sim::hash_bytes(D.verts.data() + std::size_t(e.idx) * std::size_t(D.deg), 8 * std::size_t(D.deg), h);
      for (auto& t : D.tags) h = sim::hash_bytes(t.second.data.data() + std::size_t(e.idx) * t.second.width, t.second.width, h);
    }
  return h;
}

std::string same_part(PartImg const& a, PartImg const& b) {
  if (a.dim != b.dim || a.family != b.family || a.parting != b.parting || a.nlayers != b.nlayers) return "dimension, family or partitioning";
  if (a.class_sets != b.class_sets) return "class sets";
  for (int d = 0; d <= a.dim; ++d) {
    auto &x = a.d[d], &y = b.d[d];
    std::string w = " of dimension " + std::to_string(d);
    if (x.gids != y.gids) return "global numbers" + w + " (" + std::to_string(x.n()) + " and " + std::to_string(y.n()) + " entities)";
    if (x.own_rank != y.own_rank || x.own_idx != y.own_idx) return "owners" + w;
    if (x.verts != y.verts) return "vertices" + w;
    if (x.down != y.down) return "facets" + w;
    if (x.tags.size() != y.tags.size()) return "fields" + w;
    for (auto& t : x.tags) {
      auto it = y.tags.find(t.first);
      if (it == y.tags.end() || it->second.type != t.second.type || it->second.ncomps != t.second.ncomps || it->second.data != t.second.data)
        return "field " + t.first + w;
    }
  }
  return "";
}
void check_local(oh::Mesh& m, std::string const& when) {
  int D = m.dim();
  auto fail = [&](std::string const& s) { violate("mesh-derived", when + ": " + s); };
  for (int h = 1; h <= D; ++h)
    for (int l = 0; l < h; ++l) {
      auto down = m.ask_down(h, l);
      auto ab = oh::HostRead<oh::LO>(down.ab2b);
      int deg = oh::element_degree(m.family(), h, l);
      if (ab.size() != m.nents(h) * deg) fail("a downward relation has the wrong size");
      std::vector<std::vector<std::pair<int, int>>> up(std::size_t(m.nents(l)));
      for (int i = 0; i < ab.size(); ++i) {
        if (ab[i] < 0 || ab[i] >= m.nents(l)) fail("a downward relation is out of range");
        up[std::size_t(ab[i])].push_back({i / deg, i % deg});
      }
      auto u = m.ask_up(l, h);
      auto a2 = oh::HostRead<oh::LO>(u.a2ab);
      auto b2 = oh::HostRead<oh::LO>(u.ab2b);
      auto cd = oh::HostRead<oh::I8>(u.codes);
      if (a2.size() != m.nents(l) + 1 || b2.size() != ab.size()) fail("an upward relation has the wrong size");
      for (int i = 0; i < m.nents(l); ++i) {
        std::vector<std::pair<int, int>> got;
        for (int k = a2[i]; k < a2[i + 1]; ++k) got.push_back({b2[k], oh::code_which_down(cd[k])});
        auto want = up[std::size_t(i)];
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want) fail("upward relation " + std::to_string(l) + " to " + std::to_string(h) + " is not the inverse of the downward relation");
      }
      // vertices through the relation agree with the vertices of the entity
      if (l > 0) {
        auto hv = oh::HostRead<oh::LO>(m.ask_verts_of(h));
        auto lv = oh::HostRead<oh::LO>(m.ask_verts_of(l));
        int hd = oh::element_degree(m.family(), h, 0), ld = oh::element_degree(m.family(), l, 0);
        for (int i = 0; i < ab.size(); ++i) {
          std::set<int> all(hv.data() + (i / deg) * hd, hv.data() + (i / deg + 1) * hd);
          std::set<int> want;
          for (int k = 0; k < ld; ++k) {
            int v = lv[ab[i] * ld + k];
            if (!all.count(v)) fail("a boundary entity has a vertex its element does not have");
            want.insert(hv[(i / deg) * hd + oh::element_down_template(m.family(), h, l, i % deg, k)]);
          }
          std::set<int> got(lv.data() + ab[i] * ld, lv.data() + (ab[i] + 1) * ld);
          if (got != want) fail("a boundary entity does not sit where its element says");
        }
      }
    }
  if (D >= 1) {
    auto st = m.ask_star(0);
    auto a2 = oh::HostRead<oh::LO>(st.a2ab);
    auto b2 = oh::HostRead<oh::LO>(st.ab2b);
    auto ev = oh::HostRead<oh::LO>(m.ask_verts_of(1));
    std::vector<std::set<int>> nb(std::size_t(m.nverts()));
    if (m.family() == OMEGA_H_SIMPLEX)
      for (int e = 0; e < m.nedges(); ++e) {
        nb[std::size_t(ev[2 * e])].insert(ev[2 * e + 1]);
        nb[std::size_t(ev[2 * e + 1])].insert(ev[2 * e]);
      }
    else
      nb.clear();
    if (!nb.empty())
      for (int v = 0; v < m.nverts(); ++v) {
        std::set<int> got(b2.data() + a2[v], b2.data() + a2[v + 1]);
        if (got != nb[std::size_t(v)] || int(got.size()) != a2[v + 1] - a2[v]) fail("vertex star differs from the edges");
      }
    auto du = m.ask_dual();
    auto da = oh::HostRead<oh::LO>(du.a2ab);
    auto db = oh::HostRead<oh::LO>(du.ab2b);
    auto dn = oh::HostRead<oh::LO>(m.ask_down(D, D - 1).ab2b);
    int deg = oh::element_degree(m.family(), D, D - 1);
    std::map<int, std::vector<int>> by;
    for (int i = 0; i < dn.size(); ++i) by[dn[i]].push_back(i / deg);
    std::vector<std::multiset<int>> want(std::size_t(m.nelems()));
    for (auto& kv : by)
      for (int a : kv.second)
        for (int b : kv.second)
          if (a != b) want[std::size_t(a)].insert(b);
    for (int e = 0; e < m.nelems(); ++e) {
      std::multiset<int> got(db.data() + da[e], db.data() + da[e + 1]);
      if (got != want[std::size_t(e)]) fail("dual graph differs from shared sides");
    }
  }
  // cached geometric fields equal a fresh computation
  auto same = [&](char const* nm, int d, oh::Reals fresh) {
    if (!m.has_tag(d, nm)) return;
    auto a = oh::HostRead<oh::Real>(m.get_array<oh::Real>(d, nm)), b = oh::HostRead<oh::Real>(fresh);
    if (a.size() != b.size()) fail(std::string("cached field ") + nm + " has the wrong size");
    for (int i = 0; i < a.size(); ++i)
      if (!(std::fabs(a[i] - b[i]) <= 1e-10 * std::max(1.0, std::fabs(b[i])))) fail(std::string("cached field ") + nm + " is stale");
  };
  if (m.family() == OMEGA_H_SIMPLEX) {
    same("size", D, oh::measure_elements_real(&m));
    if (m.has_tag(0, "metric")) {
      same("quality", D, oh::measure_qualities(&m));
      same("length", 1, oh::measure_edges_metric(&m));
    }
  }
}

Env::Env(Program const& p) {
  args = {"omsim", "--osh-silent"};
  if (p.get("selfsend", -1) >= 0) {
    args.push_back("--osh-self-send");
    args.push_back(std::to_string(p.get("selfsend")));
  }
  if (p.get("pool")) args.push_back("--osh-pool");
  if (p.get("time")) args.push_back("--osh-time");
  argc = int(args.size());
  for (auto& s : args) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  char** av = argv.data();
  lib = std::make_unique<oh::Library>(&argc, &av);
  world = lib->world();
  rank = world->rank();
}
Env::~Env() {
  world.reset();
  lib.reset();
}
sim::WorldResult simulate(Program const& p, bool test_world, int nranks, std::function<void(Env&)> body, u64 budget) {
  auto cfg = world_cfg(p, test_world, nranks);
  if (budget) cfg.step_budget = budget;
  return sim::run_world(cfg, [&](int) {
    std::string what;
    auto e = new Env(p);
    try {
      body(*e);
    } catch (std::exception const& ex) {
      what = ex.what();
      if (what.empty()) what = "exception";
    }
    // an exception that reaches main ends the process without unwinding it
    if (!what.empty()) sim::fail_world(what);
    delete e;
  });
}
void must_run(Program const& p, bool test_world, int nranks, std::string const& what, std::function<void(Env&)> body) {
  auto r = simulate(p, test_world, nranks, body);
  if (r.failed) violate("exception", what + " on " + std::to_string(nranks) + " ranks: rank " + std::to_string(r.fail_rank) + " failed: " + r.what);
}

// Classify the mesh as a box made of two regions meeting at x = plane, a grid
// plane: model entities are cut in two, and their parts in the plane become
// model entities of one dimension less.
void split_regions(oh::Mesh& mesh, double plane) {
  int dim = mesh.dim();
  auto x = oh::HostRead<oh::Real>(mesh.coords());
  for (int d = 0; d <= dim; ++d) {
    auto cd = oh::HostRead<oh::I8>(mesh.get_array<oh::I8>(d, "class_dim"));
    auto ci = oh::HostRead<oh::I32>(mesh.get_array<oh::I32>(d, "class_id"));
    auto ev = oh::HostRead<oh::LO>(d ? mesh.ask_verts_of(d) : oh::LOs(mesh.nverts(), 0, 1));
    oh::HostWrite<oh::I8> ncd(cd.size());
    oh::HostWrite<oh::I32> nci(ci.size());
    int deg = cd.size() ? ev.size() / cd.size() : 0;
    for (int i = 0; i < cd.size(); ++i) {
      bool on = true;
      double c = 0;
      for (int k = 0; k < deg; ++k) {
        double v = x[ev[i * deg + k] * dim];
        c += v / deg;
        if (std::fabs(v - plane) > 1e-9) on = false;
      }
      ncd[i] = cd[i];
      nci[i] = ci[i];
      if (on)
        ncd[i] = oh::I8(cd[i] - 1), nci[i] = ci[i] + 100;
      else if (c > plane)
        nci[i] = ci[i] + 50;
    }
    mesh.set_tag(d, "class_dim", oh::Read<oh::I8>(ncd.write()));
    mesh.set_tag(d, "class_id", oh::Read<oh::I32>(nci.write()));
  }
}
oh::ClassSets box_sets(int dim) {
  auto s = oh::get_box_class_sets(dim);
  s["mixed up, repeated"] = {{oh::I8(dim), 7}, {0, 3}, {oh::I8(dim - 1), -2}, {0, 3}, {0, 1 << 30}};
  s[""] = {{1, 5}};
  s["nothing"];
  s[std::string(300, 'n')] = {{0, 0}};
  return s;
}
oh::Mesh make_box(oh::CommPtr comm, Program const& p) {
  int dim = int(p.get("dim", 2));
  int nx = int(p.get("nx", 2)), ny = dim > 1 ? int(p.get("ny", 2)) : 0, nz = dim > 2 ? int(p.get("nz", 1)) : 0;
  double x = 1.0 + 0.25 * double(p.get("lx", 0)), y = dim > 1 ? 1.0 : 0.0, z = dim > 2 ? 1.0 : 0.0;
  auto fam = p.get("hyper") ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  bool sym = p.get("sym") != 0;
  auto mesh = oh::Mesh(comm->library());
  if (comm->rank() == 0) {
    oh::build_box_internal(&mesh, fam, x, y, z, nx, ny, nz, sym);
    oh::reorder_by_hilbert(&mesh);
    oh::classify_box(&mesh, x, y, z, nx, ny, nz);
    if (p.get("region") > 0 && p.get("region") < nx) split_regions(mesh, double(p.get("region")) * x / nx);
    mesh.class_sets = box_sets(mesh.dim());
    if (dim > 1 && p.get("curve") && fam == OMEGA_H_SIMPLEX) {  // bend the box: curved sides and curved interfaces
      auto c = oh::HostRead<oh::Real>(mesh.coords());
      auto was = oh::HostRead<oh::Real>(oh::measure_elements_real(&mesh));
      double a = 0.06 * double(p.get("curve")), k = p.get("curve") % 2 ? 3.14159265 : 6.2831853;
      for (int tries = 0, bad = 1; bad && tries < 6; ++tries, a *= 0.5) {
        oh::HostWrite<oh::Real> w(c.size());
        for (int v = 0; v < mesh.nverts(); ++v) {
          double X = c[v * dim] / x, Y = c[v * dim + 1], Z = dim > 2 ? c[v * dim + 2] : 0;
          w[v * dim] = c[v * dim] + a * std::sin(3.14159265 * Y);
          w[v * dim + 1] = c[v * dim + 1] + (k > 4 ? 0.5 : 1.0) * a * std::sin(k * X) - 0.5 * a * Z * Z;
          if (dim > 2) w[v * dim + 2] = c[v * dim + 2] + a * std::sin(3.14159265 * X) * Y;
        }
        mesh.set_coords(oh::Reals(w.write()));
        auto now = oh::HostRead<oh::Real>(oh::measure_elements_real(&mesh));
        bad = 0;
        for (int i = 0; i < now.size(); ++i) bad += now[i] < 0.3 * was[i];
      }
    }
  }
  mesh.set_comm(comm);
  int n = comm->size();
  if (p.get("balance", 1) && (n & (n - 1)) == 0)
    mesh.balance();
  else
    repartition(mesh, int(p.get("part", 1)), u64(p.get("partseed", 1)));
  return mesh;
}

void repartition(oh::Mesh& mesh, int kind, u64 seed) {
  auto comm = mesh.comm();
  int n = comm->size();
  if (n == 1) return;
  mesh.set_parting(OMEGA_H_ELEM_BASED);
  auto dim = mesh.dim();
  auto g = oh::HostRead<oh::GO>(mesh.globals(dim));
  auto total = mesh.nglobal_ents(dim);
  auto xs = oh::HostRead<oh::Real>(oh::average_field(&mesh, dim, dim, mesh.coords()));
  oh::HostWrite<oh::I32> dst(mesh.nelems());
  double ang = 6.28 * hash01(seed, 77);
  for (int i = 0; i < dst.size(); ++i) {
    i64 gi = g[i];
    i64 t;
    switch (kind) {
      case 0: t = gi * n / std::max<i64>(1, total); break;                  // contiguous
      case 1: t = i64(sim::mix(seed, u64(gi)) % u64(n)); break;             // scattered
      case 2: {                                                             // slabs in a random direction
        double c = std::cos(ang) * xs[i * dim] + (dim > 1 ? std::sin(ang) * xs[i * dim + 1] : 0);
        t = ((i64(std::floor((c + 2) * 1.3 * n)) % n) + n) % n;
        break;
      }
      case 3: t = hash01(seed, u64(gi)) < 0.8 ? i64(seed % u64(n)) : i64(sim::mix(seed, u64(gi)) % u64(n)); break;  // skewed
      case 4: t = (gi * n / std::max<i64>(1, total) + i64(seed % u64(n))) % n; break;  // rotated contiguous
      default: t = n > 1 ? i64(1 + sim::mix(seed, u64(gi)) % u64(n - 1)) : 0; break;   // rank 0 empty
    }
    dst[i] = oh::I32(t);
  }
  oh::Dist owners2new;
  owners2new.set_parent_comm(comm);
  owners2new.set_dest_ranks(oh::Read<oh::I32>(dst.write()));
  owners2new.set_roots2items(oh::LOs(mesh.nelems() + 1, 0, 1));
  owners2new.set_dest_globals(mesh.globals(dim));
  oh::migrate_mesh(&mesh, owners2new.invert(), OMEGA_H_ELEM_BASED, false);
}
