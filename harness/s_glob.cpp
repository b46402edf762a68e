// Global results over distributed data (D09), meshes built from distributed
// connectivity (D16), mesh comparison (D17).
#include <Omega_h_bbox.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_histogram.hpp>
#include <Omega_h_mark.hpp>
#include <sys/stat.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <set>
#include <sstream>
#include "meshprog.hpp"
using namespace sim;

namespace {
// ---- D09 ----
[[noreturn]] void bad(std::string const& kind, std::string const& what) { violate(kind, what); }
bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }

std::vector<double> values(u64 s, int n, int shape) {
  Rng r(mix(s, 71));
  std::vector<double> v;
  auto frac = [&] { return 1.0 + double(r.below(u64(1) << 52)) * 0x1p-52; };
  auto sign = [&] { return r.flip(0.5) ? -1.0 : 1.0; };
  double last = 1;
  for (int i = 0; i < n; ++i) switch (shape) {
      case 0: v.push_back(frac()); break;
      case 1: v.push_back(sign() * std::ldexp(frac(), int(r.range(-30, 30)))); break;
      case 2: v.push_back(sign() * std::ldexp(frac(), int(r.range(-900, 900)))); break;
      case 3:  // cancellation
        if (i % 3 == 0) v.push_back(last = sign() * std::ldexp(frac(), int(r.range(0, 60))));
        else if (i % 3 == 1) v.push_back(-last);
        else v.push_back(sign() * frac());
        break;
      case 4: v.push_back(sign() * double(r.below(1000)) * 0x1p-1074); break;  // subnormal
      case 5: v.push_back(r.flip(0.7) ? 0.0 : r.flip(0.3) ? -0.0 : sign() * frac()); break;
      case 6: v.push_back(0.1); break;
      case 7: v.push_back(0.0); break;
      case 8: v.push_back(sign() * std::ldexp(1.0, int(r.range(-60, 3)))); break;
      default: v.push_back(sign() * std::ldexp(frac(), int(r.range(-1074, -1000))));
    }
  return v;
}
oh::Reals reals(std::vector<double> const& v) {
  oh::HostWrite<oh::Real> w(int(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i) w[int(i)] = v[i];
  return w.write();
}
void check_accuracy(std::vector<double> const& v, double got, char const* who) {
  __float128 ex = 0;
  int E = -5000;
  for (double x : v) {
    ex += x;
    int e;
    if (x != 0) std::frexp(x, &e), E = std::max(E, e);
  }
  if (E == -5000) {
    if (got != 0) bad("sum-accuracy", std::string(who) + ": a sum of zeros gives " + exact(got));
    return;
  }
  __float128 d = (__float128)got - ex;
  if (d < 0) d = -d;
  double err = double(d), mag = std::fabs(double(ex));
  double unit = std::ldexp(1.0, std::max(E - 52, -1074));
  double tol = (double(v.size()) + 1) * unit + 0x1p-51 * mag;
  if (!(err <= tol))
    bad("sum-accuracy", std::string(who) + ": the sum of " + std::to_string(v.size()) + " values is off by " + exact(err) + ", more than " + exact(tol) + ": " + exact(got));
}
// where item i of a global list goes, and the local order
std::vector<int> my_items(u64 s, int n, int nranks, int me, int kind) {
  std::vector<int> out;
  for (int i = 0; i < n; ++i) {
    int t = kind == 0 ? int(i64(i) * nranks / std::max(1, n)) : kind == 1 ? int(mix(s, u64(i)) % u64(nranks)) : kind == 2 ? int(s % u64(nranks)) : int(mix(s, u64(i)) % 4 ? s % u64(nranks) : mix(s + 1, u64(i)) % u64(nranks));
    if (t == me) out.push_back(i);
  }
  Rng r(mix(s, u64(me) + 5));
  for (std::size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[r.below(i)]);
  return out;
}
template <class T>
void int_stats(oh::CommPtr c, u64 s, int n, std::vector<int> const& mine, char const* tn) {
  auto val = [&](int i) {
    u64 h = mix(s + 3, u64(i));
    if (sizeof(T) == 1) return T(i64(h % 250) - 125);
    if (sizeof(T) == 4) return T(i64(h % 200001) - 100000);
    return T(i64(h >> 24) - (i64(1) << 39));
  };
  oh::HostWrite<T> w(int(mine.size()));
  for (std::size_t k = 0; k < mine.size(); ++k) w[int(k)] = val(mine[k]);
  auto a = oh::Read<T>(w.write());
  i64 sum = 0;
  T mn = std::numeric_limits<T>::max(), mx = std::numeric_limits<T>::lowest();
  for (int i = 0; i < n; ++i) sum += i64(val(i)), mn = std::min(mn, val(i)), mx = std::max(mx, val(i));
  if (i64(oh::get_sum(c, a)) != sum) bad("global-result", std::string("wrong global sum of ") + tn);
  auto mm = oh::get_minmax(c, a);
  if (mm.min != mn || mm.max != mx || oh::get_min(c, a) != mn || oh::get_max(c, a) != mx) bad("global-result", std::string("wrong global minimum or maximum of ") + tn);
}
void sums(Program const& p) {
  must_run(p, true, int(p.get("nranks")), "global results", [&](Env& e) {
    std::vector<oh::CommPtr> stack{e.world};
    for (auto& op : p.ops) {
      u64 s = mix(u64(op.arg(0)), 61);
      auto c = stack.back();
      int me = c->rank(), nr = c->size(), n = int(op.arg(1)), kind = int(op.arg(3));
      // members of one communicator share the seed; others go their own way
      u64 cs = mix(s, u64(c->allreduce(e.rank, OMEGA_H_MIN)));
      auto mine = my_items(cs, n, nr, me, kind);
      if (op.name == "sum") {
        int nc = int(op.arg(4, 1));
        std::vector<std::vector<double>> all;
        for (int k = 0; k < nc; ++k) all.push_back(values(cs + u64(k), n, int(op.arg(2) + k) % 10));
        std::vector<double> loc;
        for (int i : mine)
          for (int k = 0; k < nc; ++k) loc.push_back(all[std::size_t(k)][std::size_t(i)]);
        std::vector<double> got(std::size_t(nc), -1.0);
        if (nc == 1)
          got[0] = oh::repro_sum(c, reals(loc));
        else
          oh::repro_sum(c, reals(loc), nc, got.data());
        for (int k = 0; k < nc; ++k) {
          auto& v = all[std::size_t(k)];
          auto serial = oh::repro_sum(reals(v));
          auto rev = v;
          Rng r(cs + 9);
          for (std::size_t i = rev.size(); i > 1; --i) std::swap(rev[i - 1], rev[r.below(i)]);
          auto other = oh::repro_sum(reals(rev));
          if (!same_bits(serial, other)) bad("sum-order", "the same values in another order sum to " + exact(other) + " instead of " + exact(serial));
          if (!same_bits(got[std::size_t(k)], serial))
            bad("sum-distribution", "values spread over " + std::to_string(nr) + " ranks sum to " + exact(got[std::size_t(k)]) + ", on one rank to " + exact(serial));
          check_accuracy(v, serial, "reproducible sum");
        }
      } else if (op.name == "ints") {
        int_stats<oh::I8>(c, cs, n, mine, "bytes");
        int_stats<oh::I32>(c, cs, n, mine, "32-bit integers");
        int_stats<oh::I64>(c, cs, n, mine, "64-bit integers");
        auto v = values(cs, n, int(op.arg(2)) % 10);
        std::vector<double> loc;
        for (int i : mine) loc.push_back(v[std::size_t(i)]);
        double mn = std::numeric_limits<double>::max(), mx = -mn;
        for (double x : v) mn = std::min(mn, x), mx = std::max(mx, x);
        auto mm = oh::get_minmax(c, reals(loc));
        if (mm.min != mn || mm.max != mx) bad("global-result", "wrong global minimum or maximum of reals");
      } else if (op.name == "linear") {
        // global numbers spread arbitrarily: their total and their linear owners
        oh::HostWrite<oh::GO> w(int(mine.size()));
        for (std::size_t k = 0; k < mine.size(); ++k) w[int(k)] = mine[k];
        auto g = oh::GOs(w.write());
        if (oh::get_max(c, g) != (n ? n - 1 : std::numeric_limits<oh::GO>::min())) bad("global-result", "wrong largest global number");
      } else if (op.name == "split") {
        if (stack.size() < 4) stack.push_back(c->split(int(mix(cs, u64(me)) % 2), int(mix(cs + 1, u64(me)) % 5)));
      } else if (op.name == "self") {
        if (stack.size() < 4) stack.push_back(e.lib->self());
      } else if (op.name == "pop") {
        if (stack.size() > 1) stack.pop_back();
      }
    }
  });
}
AddScenario d09({"D09", "sums", 3,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 9, 0.9);
      if (r.flip(0.3)) p.cfg["time"] = 1;
      int n = int(r.range(1, 8));
      for (int k = 0; k < n; ++k) {
        i64 s = r.range(0, 99999), m = r.flip(0.1) ? 0 : r.flip(0.1) ? r.range(500, 5000) : r.range(1, 60);
        switch (r.below(10)) {
          case 0: p.ops.push_back({"ints", {s, m, r.range(0, 9), r.range(0, 3)}}); break;
          case 1: p.ops.push_back({"split", {s}}); break;
          case 2: p.ops.push_back({r.flip(0.5) ? "self" : "pop", {s}}); break;
          default: p.ops.push_back({"sum", {s, m, r.range(0, 9), r.range(0, 3), r.flip(0.6) ? 1 : r.range(2, 4)}});
        }
      }
      return p;
    },
    sums, {{"nranks", {1, 2, 3, 4}}, {"poison", {0}}, {"time", {0}}}});

// statistics over a distributed mesh against the same mesh on one rank
void mesh_stats(Program const& p) {
  int n = int(p.get("nranks"));
  auto q = p;
  q.ops.clear();
  for (auto& o : p.ops)
    if (o.name == "gstats" || o.name == "fields") q.ops.push_back(o);
  auto one = run_program(q, false, 1, false);
  auto many = run_program(p, true, n, false);
  if (one.failed) violate("exception", "on one rank: " + one.what);
  if (many.failed) violate("exception", "on " + std::to_string(n) + " ranks: rank " + std::to_string(many.fail_rank) + ": " + many.what);
  agree_notes(many, "global statistics");
  std::vector<std::string> a, b;
  for (std::size_t k = 0; k < q.ops.size(); ++k)
    if (q.ops[k].name == "gstats") a.push_back(one.notes[k + 1][0]);
  for (std::size_t k = 0; k < p.ops.size(); ++k)
    if (p.ops[k].name == "gstats") b.push_back(many.notes[k + 1][0]);
  for (std::size_t k = 0; k < a.size(); ++k)
    if (a[k] != b[k]) violate("stats-distribution", "statistics of the mesh on one rank are " + a[k] + ", on " + std::to_string(n) + " ranks " + b[k]);
}
AddScenario d09m({"D09", "mesh_stats", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 7, 0.9);
      if (p.cfg["nranks"] < 2) p.cfg["nranks"] = r.range(2, 7);
      gen_box(p, r, 1);
      if (r.flip(0.2) && p.cfg["dim"] > 1) p.cfg["hyper"] = 1, p.cfg["sym"] = 0;
      int n = int(r.range(1, 3));
      for (int k = 0; k < n; ++k) {
        gen_ops(p, r, int(r.range(0, 3)), "pbgggf");
        p.ops.push_back({"gstats", {r.range(0, 9999)}});
      }
      return p;
    },
    mesh_stats, mesh_shrink()});

// ---- D16: a mesh built from distributed connectivity ----
struct Flat {
  int dim, fam, deg;
  std::vector<int> conn;       // per element, global vertex numbers
  std::vector<double> xyz;     // dim per vertex
  std::vector<int> id;         // per element
  int nv() const { return int(xyz.size()) / dim; }
  int ne() const { return int(conn.size()) / deg; }
};
// the same on every rank: a box renumbered and displaced by the seed
Flat flat_box(Env& e, Program const& p) {
  auto m = make_box(e.lib->self(), p);
  Flat f;
  f.dim = m.dim();
  f.fam = m.family();
  f.deg = oh::element_degree(m.family(), f.dim, 0);
  Rng r(u64(p.get("mseed")) + 3);
  auto perm = [&](int n) {
    std::vector<int> q;
    for (int i = 0; i < n; ++i) q.push_back(i);
    if (p.get("shuffle"))
      for (int i = n; i > 1; --i) std::swap(q[std::size_t(i - 1)], q[r.below(u64(i))]);
    return q;
  };
  auto pv = perm(m.nverts()), pe = perm(m.nelems());
  auto x = oh::HostRead<oh::Real>(m.coords());
  auto ev = oh::HostRead<oh::LO>(m.ask_verts_of(f.dim));
  f.xyz.resize(std::size_t(x.size()));
  f.conn.resize(std::size_t(ev.size()));
  f.id.resize(std::size_t(m.nelems()));
  for (int v = 0; v < m.nverts(); ++v)
    for (int k = 0; k < f.dim; ++k) f.xyz[std::size_t(pv[std::size_t(v)] * f.dim + k)] = x[v * f.dim + k];
  for (int i = 0; i < m.nelems(); ++i) {
    int j = pe[std::size_t(i)];
    // simplices may list their vertices in any even order
    int rot = f.fam == OMEGA_H_SIMPLEX && p.get("shuffle") && f.dim > 1 ? int(r.below(3)) : 0;
    for (int k = 0; k < f.deg; ++k) {
      int s = f.fam == OMEGA_H_SIMPLEX && f.dim > 1 && k < 3 ? (k + rot) % 3 : k;
      f.conn[std::size_t(j * f.deg + k)] = pv[std::size_t(ev[i * f.deg + s])];
    }
  }
  for (int j = 0; j < f.ne(); ++j) {
    double c = 0;
    for (int k = 0; k < f.deg; ++k) c += f.xyz[std::size_t(f.conn[std::size_t(j * f.deg + k)] * f.dim)] / f.deg;
    f.id[std::size_t(j)] = 7 + int(std::floor(c * double(1 + p.get("region")) * 0.999));
  }
  return f;
}
using Key = std::vector<i64>;
struct EntVal {
  Key verts;
  std::map<std::string, std::string> vals;
};
std::map<Key, EntVal> by_vertex_set(Canon const& c, int d, std::vector<std::string> const& names) {
  std::map<Key, EntVal> m;
  for (auto& x : c.ents[d]) {
    auto& D = c.parts[std::size_t(x.part)].d[d];
    auto i = std::size_t(x.idx);
    EntVal v;
    v.verts.assign(D.verts.begin() + long(i) * D.deg, D.verts.begin() + long(i + 1) * D.deg);
    for (auto& nm : names) {
      auto t = D.tags.find(nm);
      if (t != D.tags.end()) v.vals[nm] = std::string(t->second.data.data() + i * t->second.width, t->second.width);
    }
    auto k = v.verts;
    std::sort(k.begin(), k.end());
    if (!m.emplace(k, v).second) violate("build", "two entities of dimension " + std::to_string(d) + " have the same vertices");
  }
  return m;
}
template <class T>
oh::Read<T> pick(std::vector<T> const& v, std::vector<int> const& at, int w) {
  oh::HostWrite<T> o(int(at.size()) * w);
  for (std::size_t i = 0; i < at.size(); ++i)
    for (int k = 0; k < w; ++k) o[int(i) * w + k] = v[std::size_t(at[i] * w + k)];
  return oh::Read<T>(o.write());
}
oh::Mesh build_mesh(Env& e, Program const& p, Flat const& f, int how, PartImg* ghosted = nullptr) {
  auto fam = Omega_h_Family(f.fam);
  oh::Mesh m(e.lib.get());
  auto c = e.world;
  int n = c->size(), me = c->rank();
  u64 s = u64(p.get("mseed"));
  oh::Read<oh::I32> ids;
  if (how == 0) {  // slices
    oh::GO eb, ee, vb, ve;
    oh::suggest_slices(f.ne(), n, me, &eb, &ee);
    oh::suggest_slices(f.nv(), n, me, &vb, &ve);
    std::vector<int> es, vs;
    for (auto i = eb; i < ee; ++i) es.push_back(int(i));
    for (auto i = vb; i < ve; ++i) vs.push_back(int(i));
    oh::HostWrite<oh::GO> conn(int(es.size()) * f.deg);
    for (std::size_t i = 0; i < es.size(); ++i)
      for (int k = 0; k < f.deg; ++k) conn[int(i) * f.deg + k] = f.conn[std::size_t(es[i] * f.deg + k)];
    auto xs = pick(f.xyz, vs, f.dim);
    oh::Dist se2e, sv2v;
    oh::LOs lconn;
    oh::assemble_slices(c, fam, f.dim, f.ne(), eb, oh::GOs(conn.write()), f.nv(), vb, xs, &se2e, &lconn, &sv2v);
    auto vg = sv2v.exch(oh::GOs(int(vs.size()), vb, 1), 1);
    oh::build_from_elems2verts(&m, c, fam, f.dim, lconn, vg);
    m.add_tag(0, "coordinates", f.dim, sv2v.exch(xs, f.dim));
    ids = se2e.exch(pick(f.id, es, 1), 1);
  } else {  // any distribution of the elements, any local vertex order
    std::vector<int> es, vs;
    for (int i = 0; i < f.ne(); ++i) {
      u64 h = mix(s + 5, u64(i));
      int t = how == 1 ? int(h % u64(n)) : how == 2 ? int(i64(i) * n / f.ne()) : how == 3 ? (n > 1 ? 1 + int(h % u64(n - 1)) : 0) : int(h % 5 ? s % u64(n) : h / 5 % u64(n));
      if (t == me) es.push_back(i);
    }
    std::set<int> used;
    for (int i : es)
      for (int k = 0; k < f.deg; ++k) used.insert(f.conn[std::size_t(i * f.deg + k)]);
    vs.assign(used.begin(), used.end());
    // some ranks list their vertices in no particular order
    if (p.get("unsorted") >> me & 1)
      for (std::size_t k = vs.size(); k > 1; --k) std::swap(vs[k - 1], vs[mix(s + 9, u64(k)) % k]);
    std::map<int, int> at;
    for (std::size_t k = 0; k < vs.size(); ++k) at[vs[k]] = int(k);
    oh::HostWrite<oh::LO> conn(int(es.size()) * f.deg);
    oh::HostWrite<oh::GO> vg(int(vs.size()));
    for (std::size_t k = 0; k < vs.size(); ++k) vg[int(k)] = vs[k];
    for (std::size_t i = 0; i < es.size(); ++i)
      for (int k = 0; k < f.deg; ++k) conn[int(i) * f.deg + k] = at[f.conn[std::size_t(es[i] * f.deg + k)]];
    oh::build_from_elems2verts(&m, c, fam, f.dim, oh::LOs(conn.write()), oh::GOs(vg.write()));
    // which may have been put in order
    auto now = oh::HostRead<oh::GO>(m.globals(0));
    auto enow = oh::HostRead<oh::GO>(m.globals(f.dim));
    auto before = c->exscan(i64(es.size()), OMEGA_H_SUM);
    for (std::size_t k = 0; k < vs.size(); ++k) vs[k] = int(now[int(k)]);
    auto given = es;
    for (std::size_t k = 0; k < es.size(); ++k) es[k] = given[std::size_t(enow[int(k)] - before)];
    m.add_tag(0, "coordinates", f.dim, pick(f.xyz, vs, f.dim));
    ids = pick(f.id, es, 1);
  }
  if (p.get("ids") || p.get("classify") == 3) {
    m.add_tag(f.dim, "class_id", 1, ids);
    oh::classify_elements(&m);
  }
  int cls = int(p.get("classify"));
  if (cls) {
    m.set_parting(OMEGA_H_GHOSTED);
    if (cls == 2 && f.fam == OMEGA_H_SIMPLEX) {
      oh::classify_by_angles(&m, 0.7);
      if (f.dim != 3) oh::finalize_classification(&m);
    } else {
      if (cls == 3) {  // boundary sides are given in any order with their identifiers, as by a mesh file
        auto ex = oh::HostRead<oh::I8>(oh::mark_exposed_sides(&m));
        auto ev = m.ask_verts_of(f.dim - 1);
        auto evh = oh::HostRead<oh::LO>(f.dim == 1 ? oh::LOs(m.nverts(), 0, 1) : ev);
        auto x = oh::HostRead<oh::Real>(m.coords());
        int sd = oh::element_degree(fam, f.dim - 1, 0);
        // and the sides between two regions
        auto up = m.ask_up(f.dim - 1, f.dim);
        auto u = oh::HostRead<oh::LO>(up.a2ab), ub = oh::HostRead<oh::LO>(up.ab2b);
        auto region = oh::HostRead<oh::I32>(m.get_array<oh::I32>(f.dim, "class_id"));
        std::vector<int> eq, id;
        for (int i = 0; i < m.nents(f.dim - 1); ++i) {
          bool between = !ex[i] && region[ub[u[i]]] != region[ub[u[i] + 1]];
          if (!ex[i] && !between) continue;
          bool on = !between;
          for (int k = 0; k < sd; ++k) on = on && x[evh[i * sd + k] * f.dim] == 0.0;
          for (int k = 0; k < sd; ++k) eq.push_back(evh[i * sd + (k + 1) % sd]);
          id.push_back(between ? 77 : on ? 55 : 66);
        }
        oh::HostWrite<oh::LO> w(int(eq.size()));
        oh::HostWrite<oh::I32> wi(int(id.size()));
        for (std::size_t i = 0; i < eq.size(); ++i) w[int(i)] = eq[i];
        for (std::size_t i = 0; i < id.size(); ++i) wi[int(i)] = id[i];
        oh::classify_equal_order(&m, f.dim - 1, oh::LOs(w.write()), oh::Read<oh::I32>(wi.write()));
      } else
        oh::classify_sides_by_exposure(&m, oh::mark_exposed_sides(&m));
      oh::finalize_classification(&m);
    }
    if (ghosted) *ghosted = take_image(m);
    m.set_parting(OMEGA_H_ELEM_BASED);
  }
  return m;
}
void dist_build(Program const& p) {
  int n = int(p.get("nranks"));
  std::vector<std::string> names{"coordinates", "class_dim", "class_id"};
  std::vector<PartImg> one(1), many(static_cast<std::size_t>(n)), again(static_cast<std::size_t>(n)), ghosted(static_cast<std::size_t>(n));
  must_run(p, false, 1, "building", [&](Env& e) {
    auto f = flat_box(e, p);
    auto m = build_mesh(e, p, f, 2);
    one[0] = take_image(m);
  });
  for (int pass = 0; pass < (p.get("again") ? 2 : 1); ++pass)
    must_run(p, pass == 0, n, "building", [&](Env& e) {
      auto f = flat_box(e, p);
      // the bisection which assemble_slices() does needs a power of two
      int how = int(p.get("how"));
      if (how == 0 && (n & (n - 1))) how = 2;
      auto m = build_mesh(e, p, f, how, pass ? nullptr : &ghosted[std::size_t(e.rank)]);
      check_local(m, "the built mesh");
      (pass ? again : many)[std::size_t(e.rank)] = take_image(m);
      for (auto& op : p.ops) exec_op(e, m, p, op);
      if (!p.ops.empty() && pass == 0) {
        m.set_parting(OMEGA_H_ELEM_BASED);
        auto img = take_image(m);
        many[std::size_t(e.rank)] = img;
      }
    });
  CheckOpts o = box_opts(p);
  check_parts(many, o, "the built mesh");
  if (p.get("classify")) check_parts(ghosted, o, "the classified mesh with its ghosts");
  if (p.get("again") && p.ops.empty())
    for (std::size_t r = 0; r < many.size(); ++r) {
      auto d = same_part(many[r], again[r]);
      if (!d.empty()) violate("schedule-dependent", "two schedules build different parts on rank " + std::to_string(r) + ": " + d);
    }
  auto a = canonical(one), b = canonical(many);
  for (int d = 0; d <= a.dim; ++d) {
    auto x = by_vertex_set(a, d, names), y = by_vertex_set(b, d, names);
    if (x.size() != y.size()) violate("build", "the mesh built on " + std::to_string(n) + " ranks has " + std::to_string(y.size()) + " entities of dimension " + std::to_string(d) + " instead of " + std::to_string(x.size()));
    auto j = y.begin();
    for (auto& kv : x) {
      if (kv.first != j->first) violate("build", "the mesh built on " + std::to_string(n) + " ranks has other entities of dimension " + std::to_string(d));
      if (d == a.dim && kv.second.verts != j->second.verts) violate("build", "an element lists its vertices in another order than it was given");
      for (auto& t : kv.second.vals)
        if (!j->second.vals.count(t.first) || j->second.vals[t.first] != t.second) {
          std::string at;
          for (auto v : kv.first) at += " " + std::to_string(v);
          auto num = [&](std::string const& q) { std::string o; for (char ch : q) o += " " + std::to_string(int(ch)); return o; };
          violate("build", "the mesh built on " + std::to_string(n) + " ranks has another " + t.first + " on the entity of dimension " + std::to_string(d) + " with vertices" + at + ": bytes" + num(t.second) + " and" + num(j->second.vals[t.first]));
        }
      if (kv.second.vals.size() != j->second.vals.size()) violate("build", "classification is missing or extra");
      ++j;
    }
  }
}
AddScenario d16({"D16", "dist_build", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 8, 0.9);
      gen_box(p, r, 1);
      if (r.flip(0.25) && p.cfg["dim"] > 1) p.cfg["hyper"] = 1, p.cfg["sym"] = 0;
      p.cfg["mseed"] = r.range(0, 99999);
      p.cfg["shuffle"] = r.flip(0.8);
      p.cfg["how"] = r.range(0, 4);
      p.cfg["ids"] = r.flip(0.5);
      if (r.flip(0.4)) p.cfg["unsorted"] = r.range(1, 255);
      p.cfg["classify"] = r.range(0, 3);
      p.cfg["again"] = r.flip(0.4);
      if (r.flip(0.4)) gen_ops(p, r, int(r.range(1, 3)), "pbgl");
      return p;
    },
    dist_build, [] {
      auto m = mesh_shrink();
      m["shuffle"] = {0};
      m["unsorted"] = {0};
      m["classify"] = {0};
      m["ids"] = {0};
      m["again"] = {0};
      m["hyper"] = {0};
      return m;
    }()});

// ---- D17: comparing two meshes ----
struct Change {
  int kind;  // see apply_change
  u64 seed;
};
char const* const change_names[] = {"no change", "one value", "one value within tolerance", "extra field", "missing field", "classification", "coordinates", "an integer field", "a byte field", "one component"};
void base_fields(oh::Mesh& m) {
  for (int d : {0, m.dim()}) {
    auto g = oh::HostRead<oh::GO>(m.globals(d));
    oh::HostWrite<oh::Real> f(g.size() * 2);
    oh::HostWrite<oh::Real> x(g.size() * 2);
    oh::HostWrite<oh::I32> i(g.size());
    oh::HostWrite<oh::I8> b(g.size());
    oh::HostWrite<oh::I64> l(g.size());
    for (int k = 0; k < g.size(); ++k) {
      x[2 * k] = 1000 * (1 + hash01(8, u64(g[k]))), x[2 * k + 1] = 1e-5 * (1 + hash01(9, u64(g[k])));
      f[2 * k] = 1 + hash01(3, u64(g[k])), f[2 * k + 1] = -5 - hash01(4, u64(g[k]));
      i[k] = int(mix(5, u64(g[k])) % 1000);
      b[k] = oh::I8(mix(6, u64(g[k])) % 100);
      l[k] = i64(mix(7, u64(g[k])) >> 8);
    }
    m.add_tag(d, "cf", 2, oh::Reals(f.write()));
    m.add_tag(d, "cx", 2, oh::Reals(x.write()));
    m.add_tag(d, "ci", 1, oh::Read<oh::I32>(i.write()));
    m.add_tag(d, "cb", 1, oh::Read<oh::I8>(b.write()));
    m.add_tag(d, "cl", 1, oh::Read<oh::I64>(l.write()));
  }
}
template <class T>
void alter(oh::Mesh& m, int d, char const* name, u64 seed, std::function<T(T)> fn) {
  auto tb = m.get_tagbase(d, name);
  int nc = tb->ncomps();
  auto a = oh::HostRead<T>(m.get_array<T>(d, name));
  auto g = oh::HostRead<oh::GO>(m.globals(d));
  auto target = i64(seed % u64(m.nglobal_ents(d)));
  int comp = int(seed / 7 % u64(nc));
  oh::HostWrite<T> w(a.size());
  for (int i = 0; i < a.size(); ++i) w[i] = (g[i / nc] == target && i % nc == comp) ? fn(a[i]) : a[i];
  m.set_tag(d, name, oh::Read<T>(w.write()));
}
void compare_prog(Program const& p) {
  int n = int(p.get("nranks"));
  fs_reset(FsCfg{});
  must_run(p, true, n, "comparing", [&](Env& e) {
    auto a = make_box(e.world, p);
    base_fields(a);
    oh::Mesh b = a;
    bool verbose = p.get("verb") != 0, full = p.get("full", 1) != 0;
    int tol = int(p.get("tol"));
    // 0: exact, 1: relative 1e-6, 2: absolute 1e-3, 3: nothing compared,
    // 4: relative 1e-6 for values whose magnitude is above 3
    auto vo = tol == 0 ? oh::VarCompareOpts::zero_tolerance() : tol == 1 ? oh::VarCompareOpts::defaults() : tol == 2 ? oh::VarCompareOpts{oh::VarCompareOpts::ABSOLUTE, 1e-3, 0.0} : tol == 3 ? oh::VarCompareOpts::none() : oh::VarCompareOpts{oh::VarCompareOpts::RELATIVE, 1e-6, 3.0};
    bool missing = false, more = false;
    std::string did;
    std::set<std::pair<int, std::string>> changed;
    bool retyped = false;
    for (auto& op : p.ops) {
      auto& nm = op.name;
      u64 s = mix(u64(op.arg(0)), 3);
      int d = op.arg(1) ? b.dim() : 0;
      // per cfg, changes are seen unless nothing is compared
      if (nm == "move_a") { Op q{"part", {op.arg(1), op.arg(0)}}; exec_op(e, a, p, q); continue; }
      if (nm == "move_b") { Op q{"part", {op.arg(1), op.arg(0)}}; exec_op(e, b, p, q); continue; }
      if (nm == "mode_a") { exec_op(e, a, p, Op{"parting", {op.arg(1), op.arg(2)}}); continue; }
      if (nm == "mode_b") { exec_op(e, b, p, Op{"parting", {op.arg(1), op.arg(2)}}); continue; }
      did += " " + nm;
      auto change = [&](char const* name, bool seen) {
        if (seen) changed.insert({d, name});
      };
      // the first component lies in [1,2), the second in (-6,-5]
      bool above = s / 7 % 2 == 1 || tol != 4;
      if (nm == "real") alter<oh::Real>(b, d, "cf", s, [&](double v) { return above ? v + (op.arg(2) ? 0.5 : 1.0) : v < 2 ? v + 0.75 : v; }), change("cf", above);
      if (nm == "ulp") alter<oh::Real>(b, d, "cf", s, [&](double v) { return std::nextafter(v, 100.0); }), change("cf", tol == 0);
      if (nm == "small") alter<oh::Real>(b, d, "cf", s, [&](double v) { return v * (1 + 4e-6); }), change("cf", tol == 0 || tol == 1 || (tol == 4 && above));
      // large values apart by little of their size, tiny ones by all of it
      if (nm == "scale") {
        bool tiny = s / 7 % 2 == 1;
        int w = int(op.arg(2));
        double rel = tiny ? (w % 2 ? 1.0 : 0.25) : w % 2 ? 4e-6 : 3e-7;
        bool seen = tol == 0 || (tol == 1 && (tiny || w % 2)) || (tol == 2 && !tiny && w % 2) || (tol == 4 && !tiny && w % 2);
        alter<oh::Real>(b, d, "cx", s, [&](double v) { return v * (1 + rel); }), change("cx", seen);
      }
      if (nm == "i32") alter<oh::I32>(b, d, "ci", s, [&](int v) { return v + 1; }), change("ci", true);
      if (nm == "i8") alter<oh::I8>(b, d, "cb", s, [&](oh::I8 v) { return oh::I8(v + 3); }), change("cb", true);
      if (nm == "i64") alter<oh::I64>(b, d, "cl", s, [&](i64 v) { return v + (i64(1) << 40); }), change("cl", true);
      if (nm == "nan") alter<oh::Real>(b, d, "cf", s, [&](double) { return op.arg(2) == 3 ? HUGE_VAL : op.arg(2) == 2 ? -HUGE_VAL : std::nan(""); }), change("cf", true);
      if (nm == "class") {
        int cdim = int(op.arg(2)) % (b.dim() + 1);
        alter<oh::I32>(b, cdim, "class_id", s, [&](int v) { return v + 1000; });
        if (full || cdim == 0 || cdim == b.dim()) d = cdim, change("class_id", true);
      }
      if (nm == "extra") {
        auto name = "extra" + std::to_string(op.arg(0));
        if (!b.has_tag(d, name)) b.add_tag(d, name, 1, oh::Reals(b.nents(d), 1.0)), more = true;
      }
      if (nm == "missing") {
        auto name = "only" + std::to_string(op.arg(0));
        if (!a.has_tag(d, name)) a.add_tag(d, name, 1, oh::Reals(a.nents(d), 1.0)), missing = true;
      }
      // a tag of the same name that holds something else
      if (nm == "retype" && tol != 3) {
        auto name = "same" + std::to_string(op.arg(0));
        if (a.has_tag(d, name)) continue;
        int w = int(op.arg(2));
        a.add_tag(d, name, w == 2 ? 2 : 1, oh::Read<oh::I32>(a.nents(d) * (w == 2 ? 2 : 1), 1));
        if (w == 0) b.add_tag(d, name, 1, oh::Read<oh::I64>(b.nents(d), 1));
        if (w == 1) b.add_tag(d, name, 1, oh::Reals(b.nents(d), 1.0));
        if (w == 2) b.add_tag(d, name, 1, oh::Read<oh::I32>(b.nents(d), 1));
        if (w == 3) b.add_tag(d, name, 2, oh::Read<oh::I32>(2 * b.nents(d), 1));
        retyped = true;
      }
    }
    // all tags of both, as the tools do from the first mesh
    auto opts = oh::MeshCompareOpts::init(&a, vo);
    // some left out, some held to another tolerance
    static char const* const fields[] = {"cf", "ci", "cb", "cl", "cx"};
    for (int k = 0; k < 10; ++k) {
      int d = k / 5 ? b.dim() : 0;
      if (p.get("skip") >> k & 1) {
        if (p.get("skiphow"))
          opts.tags2opts[d].erase(fields[k % 5]);
        else
          opts.tags2opts[d][fields[k % 5]] = oh::VarCompareOpts::none();
        changed.erase({d, fields[k % 5]});
      }
    }
    if (tol == 3) changed.clear();
    bool differ = missing || retyped || !changed.empty();
    auto want = differ ? OMEGA_H_DIFF : more ? OMEGA_H_MORE : OMEGA_H_SAME;
    auto ia = take_image(a), ib = take_image(b);
    auto got = oh::compare_meshes(&a, &b, opts, verbose, full);
    static char const* const nm[] = {"the same", "more", "different"};
    if (got != want) violate("compare", std::string("meshes that are ") + nm[want] + " (" + did + " ) were reported " + nm[got] + " on rank " + std::to_string(e.rank) + " of " + std::to_string(n));
    auto d = same_part(ia, take_image(a)) + same_part(ib, take_image(b));
    if (!d.empty()) violate("compare", "comparing changed a mesh: " + d);
    if (!differ && !more && p.get("structure")) {
      // another number of elements, another diagonal, another numbering
      auto q = p;
      int k = int(p.get("structure"));
      oh::Mesh c(e.lib.get());
      if (k == 1) q.cfg["nx"] = p.get("nx") + 1;
      if (k == 2) {
        if (p.get("hyper") || p.get("dim") == 1) return;
        q.cfg["sym"] = !p.get("sym");
      }
      if (k == 3) {
        if (p.get("dim") == 1) return;
        q.cfg["hyper"] = !p.get("hyper"), q.cfg["sym"] = 0;
      }
      if (k == 4) {
        if (p.get("dim") == 1) return;
        q.cfg["dim"] = p.get("dim") == 2 ? 3 : 2;
        q.cfg["nz"] = 1;
      }
      auto turned = [&](bool turn) {
        oh::Mesh m(e.lib.get());
        int dim = int(p.get("dim"));
        if (e.rank == 0) {
          auto fam = p.get("hyper") ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
          oh::Mesh t(e.lib.get());
          oh::build_box_internal(&t, fam, 1, dim > 1, dim > 2, int(p.get("nx")), dim > 1 ? int(p.get("ny")) : 0, dim > 2 ? int(p.get("nz")) : 0, p.get("sym") != 0);
          auto ev = oh::HostRead<oh::LO>(t.ask_elem_verts());
          int deg = ev.size() / t.nelems(), at = int(p.get("turn") % t.nelems()) * deg;
          oh::HostWrite<oh::LO> w(ev.size());
          for (int k = 0; k < ev.size(); ++k) w[k] = ev[k];
          // the same vertices of one element, starting at the next one
          int k = dim == 1 ? 2 : dim == 2 ? deg : deg == 4 ? 3 : 4;
          if (turn)
            for (int half = 0; half < (deg == 8 ? 2 : 1); ++half) std::rotate(&w[at + 4 * half], &w[at + 4 * half] + 1, &w[at + 4 * half] + k);
          oh::build_from_elems_and_coords(&m, fam, dim, w.write(), t.coords());
        }
        m.set_comm(e.world);
        m.balance();
        return m;
      };
      if (k == 5) {
        if (n & (n - 1)) return;
        auto f = turned(false), g = turned(false);
        auto fopts = oh::MeshCompareOpts::init(&f, vo);
        got = oh::compare_meshes(&f, &g, fopts, verbose, full);
        if (got != OMEGA_H_SAME) violate("compare", std::string("meshes built the same way were reported ") + nm[got]);
        c = turned(true);
        got = oh::compare_meshes(&f, &c, fopts, verbose, full);
        if (got != OMEGA_H_DIFF) violate("compare", std::string("meshes of different connectivity were reported ") + nm[got]);
        return;
      }
      c = make_box(e.world, q);
      base_fields(c);
      got = oh::compare_meshes(&a, &c, opts, verbose, full);
      if (got != OMEGA_H_DIFF) violate("compare", std::string("meshes of different structure were reported ") + nm[got]);
      got = oh::compare_meshes(&c, &a, oh::MeshCompareOpts::init(&c, vo), verbose, full);
      if (got != OMEGA_H_DIFF) violate("compare", std::string("meshes of different structure were reported ") + nm[got]);
    }
    if (p.get("regress")) {
      // a gold file written by one rank, then checked by all
      oh::filesystem::path prefix("gold");
      bool first = oh::check_regression(prefix, &a);
      if (first != (n == 1)) violate("compare", "a missing gold file was not reported as such");
      if (n > 1) oh::binary::write("gold.osh", &a);
      auto opt0 = oh::MeshCompareOpts::init(&a, oh::VarCompareOpts::zero_tolerance());
      bool same_exact = oh::compare_meshes(&a, &b, opt0, false) == OMEGA_H_SAME;
      if (!oh::check_regression(prefix, &a)) violate("compare", "a mesh does not match the gold file written from it");
      if (oh::check_regression(prefix, &b) != same_exact) violate("compare", std::string("a mesh that is ") + (same_exact ? "the same as" : "different from") + " the gold file was reported otherwise");
    }
  });
}
AddScenario d17({"D17", "compare", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 6, 0.9);
      gen_box(p, r, 1);
      p.cfg.erase("verbose");
      if (r.flip(0.2) && p.cfg["dim"] > 1) p.cfg["hyper"] = 1, p.cfg["sym"] = 0;
      p.cfg["verb"] = r.flip(0.6);
      p.cfg["full"] = r.flip(0.7);
      p.cfg["tol"] = r.range(0, 4);
      if (r.flip(0.2)) p.cfg["skip"] = r.range(1, 1023), p.cfg["skiphow"] = r.flip(0.5);
      if (r.flip(0.3)) p.cfg["structure"] = r.range(1, 5), p.cfg["turn"] = r.range(0, 99);
      if (r.flip(0.3)) p.cfg["regress"] = 1;
      int n = int(r.range(0, 4));
      static char const* const ch[] = {"real", "ulp", "small", "i32", "i8", "i64", "class", "extra", "missing", "nan", "retype", "scale"};
      for (int k = 0; k < n; ++k) {
        i64 s = r.range(0, 99999);
        if (r.flip(0.45)) {
          int w = int(r.below(4));
          if (w < 2)
            p.ops.push_back({w ? "move_a" : "move_b", {s, r.range(0, 5)}});
          else
            p.ops.push_back({w == 2 ? "mode_a" : "mode_b", {s, r.range(0, 3), r.range(1, 2)}});
        } else
          p.ops.push_back({ch[r.below(12)], {s, r.range(0, 1), r.range(0, 3)}});
      }
      return p;
    },
    compare_prog, [] {
      auto m = mesh_shrink();
      m["structure"] = {0};
      m["regress"] = {0};
      m["verb"] = {0};
      m["full"] = {1};
      m["hyper"] = {0};
      m["tol"] = {0};
      m["skip"] = {0};
      return m;
    }()});
}  // namespace
