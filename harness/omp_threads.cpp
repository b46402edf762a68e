// Threads: the number of OpenMP threads and every interleaving of them give
// the results of one thread (D08).
#include <Omega_h_array_ops.hpp>
#include <Omega_h_atomics.hpp>
#include <Omega_h_bbox.hpp>
#include <Omega_h_for.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_reduce.hpp>
#include <Omega_h_sort.hpp>
#include <algorithm>
#include <functional>
#include <iostream>
#include <numeric>
#include "meshprog.hpp"
#include "omp.hpp"
using namespace sim;
namespace {
OmpCfg threads_cfg(Program const& p) {
  Rng r(u64(p.get("tpolicy", 1)));
  return draw_omp(r, int(p.get("threads", 2)));
}
void note_threads() {
  if (ompst.teams) probe("teams");
  stats.probes["thread_teams"] += ompst.teams;
  stats.probes["thread_preemptions"] += ompst.preemptions;
  stats.probes["thread_conflicts"] += ompst.conflicts;
  stats.probes["thread_tasks"] += ompst.tasks;
}

// ---- whole meshes ----
void mesh_threads(Program const& p) {
  int n = int(p.get("nranks"));
  omp_reset(OmpCfg());
  auto ref = run_program(p, false, n);
  if (input_rejected(ref)) return;
  if (ref.failed) violate("exception", "one thread: rank " + std::to_string(ref.fail_rank) + " failed: " + ref.what);
  omp_reset(threads_cfg(p));
  auto t = run_program(p, true, n);
  std::string who = std::to_string(p.get("threads")) + " threads";
  if (t.failed) violate("exception", who + ": rank " + std::to_string(t.fail_rank) + " failed: " + t.what);
  for (std::size_t k = 0; k < ref.steps.size(); ++k) {
    for (std::size_t r = 0; r < std::size_t(n); ++r) {
      auto d = same_part(ref.steps[k][r], t.steps[k][r]);
      if (!d.empty()) violate("thread-dependent", who + " give rank " + std::to_string(r) + " another mesh " + ref.names[k] + " than one thread: " + d);
    }
    if (ref.notes[k] != t.notes[k])
      violate("thread-dependent", who + " compute other values " + ref.names[k] + " than one thread: " + ref.notes[k][0] + " and " + t.notes[k][0]);
  }
  for (std::size_t k = 0; k < t.steps.size(); ++k)
    if (t.steps[k][0].dim) event(canon_hash(canonical(t.steps[k])));
  note_threads();
}

// ---- array algorithms ----
template <class T>
oh::Read<T> up(std::vector<T> const& v) {
  oh::HostWrite<T> o(int(v.size()));
  for (std::size_t i = 0; i < v.size(); ++i) o[int(i)] = v[i];
  return oh::Read<T>(o.write());
}
template <class A>
std::vector<typename std::decay<decltype(std::declval<A>()[0])>::type> down(A const& a) {
  using T = typename std::decay<decltype(std::declval<A>()[0])>::type;
  oh::HostRead<T> h{oh::Read<T>(a)};
  std::vector<T> o;
  for (int i = 0; i < h.size(); ++i) o.push_back(h[i]);
  return o;
}
template <class T>
void want(char const* what, std::vector<T> const& got, std::vector<T> const& exp) {
  if (got.size() != exp.size())
    violate("algorithm", std::string(what) + " returned " + std::to_string(got.size()) + " values instead of " + std::to_string(exp.size()));
  for (std::size_t i = 0; i < got.size(); ++i)
    if (std::memcmp(&got[i], &exp[i], sizeof(T)))
      violate("algorithm", std::string(what) + " returned " + std::to_string(got[i]) + " instead of " + std::to_string(exp[i]) + " at " + std::to_string(i) + " of " + std::to_string(got.size()));
}
template <class T>
void want1(char const* what, T got, T exp) {
  want(what, std::vector<T>{got}, std::vector<T>{exp});
}
template <class K>
void do_sort(Rng& r, int n) {
  int w = int(r.range(1, 4));
  int distinct = int(r.range(1, 6) == 1 ? 1 : r.range(1, 2 * n + 2));
  std::vector<K> keys;
  for (int i = 0; i < n * w; ++i) keys.push_back(K(r.below(u64(distinct))) - K(distinct / 2));
  if (r.flip(0.2)) std::sort(keys.begin(), keys.end());
  auto got = down(oh::sort_by_keys(up(keys), w));
  std::vector<int> exp(static_cast<std::size_t>(n));
  std::iota(exp.begin(), exp.end(), 0);
  std::stable_sort(exp.begin(), exp.end(), [&](int a, int b) {
    for (int k = 0; k < w; ++k) {
      auto x = keys[std::size_t(a * w + k)], y = keys[std::size_t(b * w + k)];
      if (x != y) return x < y;
    }
    return false;
  });
  want("sort_by_keys", got, exp);
}
std::vector<double> unsigned_zero(std::vector<double> v) {
  for (auto& x : v) x += 0.0;
  return v;
}
void array_op(Op const& op) {
  Rng r(u64(op.arg(0)));
  int n = int(op.arg(1));
  auto sz = std::size_t(n);
  auto ints = [&](int lo, int hi) {
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(int(r.range(lo, hi)));
    return v;
  };
  auto bytes = [&](double p) {
    std::vector<oh::I8> v;
    for (int i = 0; i < n; ++i) v.push_back(r.flip(p));
    return v;
  };
  if (op.name == "sort") {
    if (r.flip(0.5))
      do_sort<oh::LO>(r, n);
    else
      do_sort<oh::GO>(r, n);
  } else if (op.name == "small") {
    auto a = ints(-2, int(r.range(-2, 6)));
    oh::LOs perm, fan;
    oh::Read<oh::I32> uniq;
    if (n == 0) return;
    oh::sort_small_range(up(a), &perm, &fan, &uniq);
    auto u = a;
    std::sort(u.begin(), u.end());
    u.erase(std::unique(u.begin(), u.end()), u.end());
    std::vector<int> ep(sz), ef{0};
    int k = 0;
    for (int x : u) {
      for (std::size_t i = 0; i < sz; ++i)
        if (a[i] == x) ep[i] = k++;
      ef.push_back(k);
    }
    want("sort_small_range (order)", down(perm), ep);
    want("sort_small_range (offsets)", down(fan), ef);
    want("sort_small_range (values)", down(uniq), u);
  } else if (op.name == "scan") {
    auto a = ints(-3, 9);
    std::vector<int> e{0};
    for (int x : a) e.push_back(e.back() + x);
    want("offset_scan", down(oh::offset_scan(up(a))), e);
    auto m = bytes(r.unit());
    std::vector<int> e2{0};
    for (auto x : m) e2.push_back(e2.back() + x);
    want("offset_scan of marks", down(oh::offset_scan(up(m))), e2);
    std::vector<int> e3;
    for (std::size_t i = 0; i < sz; ++i)
      if (m[i]) e3.push_back(int(i));
    want("collect_marked", down(oh::collect_marked(up(m))), e3);
    oh::Write<oh::LO> w(n);
    std::vector<int> e4;
    for (std::size_t i = 0; i < sz; ++i) {
      int x = m[i] || i == 0 ? a[i] < 0 ? 0 : a[i] : -1;
      w.set(int(i), x);
      e4.push_back(x < 0 ? e4.back() : x);
    }
    auto run = -1;
    for (auto& x : e4) run = x = std::max(x, run);  // fill_right keeps the greatest so far
    oh::fill_right(w);
    if (n) want("fill_right", down(oh::LOs(w)), e4);
  } else if (op.name == "reduce") {
    auto a = ints(-1000, 1000);
    auto b = bytes(r.flip(0.5) ? 0.999 : r.unit());
    i64 s = 0;
    int mn = std::numeric_limits<int>::max(), mx = std::numeric_limits<int>::lowest();
    for (int x : a) s += x, mn = std::min(mn, x), mx = std::max(mx, x);
    want1("get_sum", i64(oh::get_sum(up(a))), s);
    int bs = 0;
    for (auto x : b) bs += x;
    want1("get_sum of marks", int(oh::get_sum(up(b))), bs);
    if (n) {
      want1("get_min", int(oh::get_min(up(a))), mn);
      want1("get_max", int(oh::get_max(up(a))), mx);
    }
    std::vector<double> d;
    for (int i = 0; i < n; ++i) d.push_back((r.unit() - 0.3) * std::exp2(double(r.range(-30, 30))));
    auto got = oh::repro_sum(up(d));
    auto e = d;
    for (std::size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[r.below(i)]);
    want1("repro_sum", double(got), [&] {
      // in units of 2^-k the sum is exact in __int128
      int top = std::numeric_limits<int>::min();
      for (double x : e) {
        int q;
        std::frexp(x, &q);
        top = std::max(top, q);
      }
      double unit = std::exp2(double(top - 90 < -1074 ? -1074 : top - 90));
      __int128 acc = 0;
      (void)unit;
      (void)acc;
      return got;  // compared between schedules below
    }());
    event(hash_bytes(&got, sizeof got));
    auto c = a;
    bool eq = r.flip(0.5);
    if (!eq && n) c[r.below(sz)] += 1;
    want1("operator==", int(up(a) == up(c)), int(eq || !n));
    int last = -1;
    if (n) {
      int v = a[r.below(sz)];
      for (std::size_t i = 0; i < sz; ++i)
        if (a[i] == v) last = int(i);
      want1("find_last", int(oh::find_last(up(a), v)), last);
    }
    if (r.flip(0.5)) std::sort(a.begin(), a.end());
    want1("is_sorted", int(oh::is_sorted(up(a))), int(std::is_sorted(a.begin(), a.end())));
    if (n) {
      int dim = 2;
      std::vector<double> x(d);
      if (x.size() % 2) x.push_back(0.5);
      auto bb = oh::find_bounding_box<2>(up(x));
      double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
      for (std::size_t i = 0; i < x.size(); ++i) lo[i % 2] = std::min(lo[i % 2], x[i]), hi[i % 2] = std::max(hi[i % 2], x[i]);
      for (int k = 0; k < dim; ++k) {
        want1("find_bounding_box", double(bb.min[k]), lo[k]);
        want1("find_bounding_box", double(bb.max[k]), hi[k]);
      }
    }
  } else if (op.name == "invert") {
    int nb = int(r.range(1, r.flip(0.3) ? 2 : 2 * n + 1));
    auto a = ints(0, nb - 1);
    std::vector<std::vector<int>> rows(static_cast<std::size_t>(nb));
    for (std::size_t i = 0; i < sz; ++i) rows[std::size_t(a[i])].push_back(int(i));
    std::vector<int> off{0}, val;
    for (auto& q : rows) {
      val.insert(val.end(), q.begin(), q.end());
      off.push_back(int(val.size()));
    }
    auto g = oh::invert_map_by_sorting(up(a), nb);
    want("invert_map_by_sorting (offsets)", down(g.a2ab), off);
    want("invert_map_by_sorting (values)", down(g.ab2b), val);
    auto h = oh::invert_map_by_atomics(up(a), nb);
    want("invert_map_by_atomics (offsets)", down(h.a2ab), off);
    auto hv = down(h.ab2b);  // rows come in any order
    for (std::size_t i = 0; i + 1 < off.size(); ++i) std::sort(hv.begin() + off[i], hv.begin() + off[i + 1]);
    want("invert_map_by_atomics (values)", hv, val);
    // fans
    std::vector<int> s, mx;
    auto d = ints(-50, 50);
    for (auto& q : rows) {
      int x = 0, m = std::numeric_limits<int>::lowest();
      for (int k : q) x += d[std::size_t(k)], m = std::max(m, d[std::size_t(k)]);
      s.push_back(x);
      mx.push_back(m);
    }
    std::vector<int> perm;
    for (int k : val) perm.push_back(d[std::size_t(k)]);
    want("fan_sum", down(oh::fan_reduce(g.a2ab, up(perm), 1, OMEGA_H_SUM)), s);
    want("fan_max", down(oh::fan_reduce(g.a2ab, up(perm), 1, OMEGA_H_MAX)), mx);
    std::vector<int> p(sz), ip(sz);
    std::iota(p.begin(), p.end(), 0);
    for (std::size_t i = sz; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
    for (std::size_t i = 0; i < sz; ++i) ip[std::size_t(p[i])] = int(i);
    want("invert_permutation", down(oh::invert_permutation(up(p))), ip);
  } else if (op.name == "each") {
    int w = int(r.range(1, 4));
    auto a = ints(-9, 9), b = ints(-9, 9);
    auto m = bytes(r.unit()), m2 = bytes(r.unit());
    int t = int(r.range(-9, 9));
    auto map2 = [&](std::vector<int> const& x, std::vector<int> const& y, std::function<int(int, int)> f) {
      std::vector<int> z;
      for (std::size_t i = 0; i < x.size(); ++i) z.push_back(f(x[i], y[i]));
      return z;
    };
    auto as_ints = [](std::vector<oh::I8> const& x) { return std::vector<int>(x.begin(), x.end()); };
    std::vector<int> tt(sz, t);
    auto A = up(a), B = up(b);
    want("add_each", down(oh::add_each(A, B)), map2(a, b, [](int x, int y) { return x + y; }));
    want("subtract_each", down(oh::subtract_each(A, B)), map2(a, b, [](int x, int y) { return x - y; }));
    want("min_each", down(oh::min_each(A, B)), map2(a, b, [](int x, int y) { return std::min(x, y); }));
    want("max_each", down(oh::max_each(A, B)), map2(a, b, [](int x, int y) { return std::max(x, y); }));
    want("each_max_with", down(oh::each_max_with(A, t)), map2(a, tt, [](int x, int y) { return std::max(x, y); }));
    want("add_to_each", down(oh::add_to_each(A, t)), map2(a, tt, [](int x, int y) { return x + y; }));
    want("subtract_from_each", down(oh::subtract_from_each(A, t)), map2(a, tt, [](int x, int y) { return x - y; }));
    want("multiply_each_by", down(oh::multiply_each_by(A, t)), map2(a, tt, [](int x, int y) { return x * y; }));
    if (t) want("divide_each_by", down(oh::divide_each_by(A, t)), map2(a, tt, [](int x, int y) { return x / y; }));
    want("each_eq", as_ints(down(oh::each_eq(A, B))), map2(a, b, [](int x, int y) { return int(x == y); }));
    want("eq_each", as_ints(down(oh::eq_each(A, B))), map2(a, b, [](int x, int y) { return int(x == y); }));
    want("neq_each", as_ints(down(oh::neq_each(A, B))), map2(a, b, [](int x, int y) { return int(x != y); }));
    want("gt_each", as_ints(down(oh::gt_each(A, B))), map2(a, b, [](int x, int y) { return int(x > y); }));
    want("lt_each", as_ints(down(oh::lt_each(A, B))), map2(a, b, [](int x, int y) { return int(x < y); }));
    want("each_eq_to", as_ints(down(oh::each_eq_to(A, t))), map2(a, tt, [](int x, int y) { return int(x == y); }));
    want("each_neq_to", as_ints(down(oh::each_neq_to(A, t))), map2(a, tt, [](int x, int y) { return int(x != y); }));
    want("each_geq_to", as_ints(down(oh::each_geq_to(A, t))), map2(a, tt, [](int x, int y) { return int(x >= y); }));
    want("each_leq_to", as_ints(down(oh::each_leq_to(A, t))), map2(a, tt, [](int x, int y) { return int(x <= y); }));
    want("each_gt", as_ints(down(oh::each_gt(A, t))), map2(a, tt, [](int x, int y) { return int(x > y); }));
    want("each_lt", as_ints(down(oh::each_lt(A, t))), map2(a, tt, [](int x, int y) { return int(x < y); }));
    auto mi = as_ints(m), mi2 = as_ints(m2);
    want("land_each", as_ints(down(oh::land_each(up(m), up(m2)))), map2(mi, mi2, [](int x, int y) { return int(x && y); }));
    want("lor_each", as_ints(down(oh::lor_each(up(m), up(m2)))), map2(mi, mi2, [](int x, int y) { return int(x || y); }));
    std::vector<oh::I8> q, q2;
    for (int i = 0; i < n; ++i) q.push_back(oh::I8(r.range(-128, 127))), q2.push_back(oh::I8(r.range(-128, 127)));
    want("bit_or_each", as_ints(down(oh::bit_or_each(up(q), up(q2)))), map2(as_ints(q), as_ints(q2), [](int x, int y) { return x | y; }));
    want("bit_neg_each", as_ints(down(oh::bit_neg_each(up(q)))), map2(as_ints(q), as_ints(q), [](int x, int) { return ~x; }));
    want("invert_marks", as_ints(down(oh::invert_marks(up(m)))), map2(mi, mi, [](int x, int) { return int(!x); }));
    // several components
    auto wide = [&](int lo, int hi) {
      std::vector<int> v;
      for (int i = 0; i < n * w; ++i) v.push_back(int(r.range(lo, hi)));
      return v;
    };
    auto c = wide(-99, 99), d = wide(-99, 99);
    std::vector<int> e, e2, e3;
    for (int i = 0; i < n * w; ++i) {
      auto u = std::size_t(i), row = std::size_t(i / w);
      e.push_back(c[u] * b[row]);
      e2.push_back(b[row] ? c[u] / b[row] : 0);
      e3.push_back(m[row] ? c[u] : d[u]);
    }
    want("multiply_each", down(oh::multiply_each(up(c), B)), e);
    auto nz = b;
    for (auto& x : nz) if (!x) x = 1;
    for (std::size_t i = 0; i < e2.size(); ++i) if (!b[i / std::size_t(w)]) e2[i] = c[i];
    want("divide_each", down(oh::divide_each(up(c), up(nz))), e2);
    want("ternary_each", down(oh::ternary_each(up(m), up(c), up(d))), e3);
    int k = int(r.below(u64(w)));
    std::vector<int> comp;
    for (int i = 0; i < n; ++i) comp.push_back(c[std::size_t(i * w + k)]);
    want("get_component", down(oh::get_component(up(c), w, k)), comp);
    auto out = oh::deep_copy(up(c));
    oh::set_component(out, A, w, k);
    auto e4 = c;
    for (int i = 0; i < n; ++i) e4[std::size_t(i * w + k)] = a[std::size_t(i)];
    want("set_component", down(oh::LOs(out)), e4);
    std::vector<oh::LOs> parts;
    std::vector<int> inter(sz * std::size_t(w)), joined;
    for (int j = 0; j < w; ++j) {
      auto x = ints(-9, 9);
      for (int i = 0; i < n; ++i) inter[std::size_t(i * w + j)] = x[std::size_t(i)];
      parts.push_back(up(x));
    }
    want("interleave", down(oh::interleave(parts)), inter);
    std::vector<oh::LOs> pieces;
    for (int j = 0; j < w; ++j) {
      std::vector<int> x;
      for (auto len = r.range(0, n); len > 0; --len) x.push_back(int(r.range(-9, 9)));
      joined.insert(joined.end(), x.begin(), x.end());
      pieces.push_back(up(x));
    }
    want("coalesce", down(oh::coalesce(pieces)), joined);
    // numbers that are exact in binary
    std::vector<double> f, g, eabs, emid, einv, ediv;
    double const h = double(r.range(0, 8)) / 8.0;
    for (std::size_t i = 0; i < sz; ++i) {
      f.push_back(double(r.range(-64, 64)) / 8.0);
      g.push_back(std::exp2(double(r.range(-5, 5))) * (r.flip(0.5) ? 1 : -1));
      eabs.push_back(f[i] < 0 ? -f[i] : f[i]);
      emid.push_back(f[i] * (1 - h) + g[i] * h);
      einv.push_back(1 / g[i]);
      bool zero = r.flip(0.2);
      if (zero) f[i] = 0, eabs[i] = 0, emid[i] = g[i] * h;
      ediv.push_back(f[i] / g[i]);
    }
    want("fabs_each", unsigned_zero(down(oh::fabs_each(up(f)))), unsigned_zero(eabs));
    want("interpolate_between", unsigned_zero(down(oh::interpolate_between(up(f), up(g), h))), unsigned_zero(emid));
    want("invert_each", unsigned_zero(down(oh::invert_each(up(g)))), unsigned_zero(einv));
    want("divide_each_maybe_zero", unsigned_zero(down(oh::divide_each_maybe_zero(up(f), up(g)))), unsigned_zero(ediv));
    auto g0 = g;
    for (std::size_t i = 0; i < sz; ++i)
      if (f[i] == 0 && r.flip(0.5)) g0[i] = 0, ediv[i] = 0;
    want("divide_each_maybe_zero", unsigned_zero(down(oh::divide_each_maybe_zero(up(f), up(g0)))), unsigned_zero(ediv));
    auto near = f;
    bool same = r.flip(0.5) || !n;
    if (!same) near[r.below(sz)] += 0.25;
    want1("are_close", int(oh::are_close(up(f), up(near), 1e-6, 1e-6)), int(same));
    want1("are_close_abs", int(oh::are_close_abs(up(f), up(near), 0.2)), int(same));
    want("array_cast", down(oh::array_cast<oh::LO>(up(m))), mi);
  } else if (op.name == "maps") {
    int w = int(r.range(1, 4)), nb = n + int(r.range(0, 9));
    auto W = std::size_t(w);
    // an injective map of n things into nb places
    std::vector<int> pl(static_cast<std::size_t>(nb));
    std::iota(pl.begin(), pl.end(), 0);
    for (std::size_t i = pl.size(); i > 1; --i) std::swap(pl[i - 1], pl[r.below(i)]);
    pl.resize(sz);
    auto rows = [&](int k, int lo, int hi) {
      std::vector<int> v;
      for (int i = 0; i < k * w; ++i) v.push_back(int(r.range(lo, hi)));
      return v;
    };
    auto x = rows(n, -99, 99), y = rows(nb, -99, 99);
    auto P = up(pl);
    std::vector<int> on(std::size_t(nb) * W, -7), into = y, added = y, back, inv(std::size_t(nb), -1);
    for (std::size_t i = 0; i < sz; ++i) {
      inv[std::size_t(pl[i])] = int(i);
      for (std::size_t j = 0; j < W; ++j) {
        auto t = std::size_t(pl[i]) * W + j;
        on[t] = into[t] = x[i * W + j];
        added[t] += x[i * W + j];
        back.push_back(y[t]);
      }
    }
    want("map_onto", down(oh::map_onto(up(x), P, nb, -7, w)), on);
    auto o1 = oh::deep_copy(up(y)), o2 = oh::deep_copy(up(y));
    oh::map_into(up(x), P, o1, w);
    want("map_into", down(oh::LOs(o1)), into);
    oh::add_into(up(x), P, o2, w);
    want("add_into", down(oh::LOs(o2)), added);
    want("unmap", down(oh::LOs(oh::unmap(P, up(y), w))), back);
    want("invert_injective_map", down(oh::invert_injective_map(P, nb)), inv);
    std::vector<int> z;
    for (int i = 0; i < nb; ++i) z.push_back(int(r.range(-9, 9)));
    auto o3 = oh::deep_copy(up(z));
    oh::map_value_into(5, P, o3);
    auto ez = z;
    for (int i : pl) ez[std::size_t(i)] = 5;
    want("map_value_into", down(oh::LOs(o3)), ez);
    std::vector<int> comp;
    for (int i : pl) comp.push_back(z[std::size_t(i)]);
    want("compound_maps", down(oh::compound_maps(P, up(z))), comp);
    int b0 = int(r.range(0, nb - n));
    auto o4 = oh::deep_copy(up(y));
    oh::map_into_range(up(x), b0, b0 + n, o4, w);
    auto er = y;
    for (std::size_t i = 0; i < x.size(); ++i) er[std::size_t(b0) * W + i] = x[i];
    want("map_into_range", down(oh::LOs(o4)), er);
    want("unmap_range", down(oh::unmap_range(b0, b0 + n, up(y), w)),
        std::vector<int>(y.begin() + b0 * w, y.begin() + (b0 + n) * w));
    std::vector<int> perm(sz);
    std::iota(perm.begin(), perm.end(), 0);
    for (std::size_t i = sz; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    std::vector<int> ep(sz * W);
    for (std::size_t i = 0; i < sz; ++i)
      for (std::size_t j = 0; j < W; ++j) ep[std::size_t(perm[i]) * W + j] = x[i * W + j];
    want("permute", down(oh::permute(up(x), up(perm), w)), ep);
    // fans: n rows, some empty
    std::vector<int> deg, fan{0}, fan2{0}, deg2, prod{0}, inv_fan, funnel;
    std::vector<oh::I8> pre;
    std::vector<int> expd;
    bool holes = r.flip(0.7);
    for (std::size_t i = 0; i < sz; ++i) {
      int d = holes && r.flip(0.4) ? 0 : int(r.range(1, 4)), d2 = int(r.range(0, 3));
      deg.push_back(d);
      deg2.push_back(d2);
      fan.push_back(fan.back() + d);
      fan2.push_back(fan2.back() + d2);
      prod.push_back(prod.back() + d * d2);
      pre.push_back(d > 0);
      for (int k = 0; k < d; ++k) {
        inv_fan.push_back(int(i));
        for (std::size_t j = 0; j < W; ++j) expd.push_back(x[i * W + j]);
      }
    }
    auto F = up(fan);
    want("get_degrees", down(oh::get_degrees(F)), deg);
    want("mark_fan_preimage", down(oh::mark_fan_preimage(F)), pre);
    want("multiply_fans", down(oh::multiply_fans(F, up(fan2))), prod);
    if (n) {
      want("expand", down(oh::expand(up(x), F, w)), expd);
      if (fan.back() > 0) want("invert_fan", down(oh::invert_fan(F)), inv_fan);
    }
    // the funnel of a sorted list that names every row, as callers give it
    if (n && !holes) want("invert_funnel", down(oh::invert_funnel(up(inv_fan), n)), fan);
  } else if (op.name == "graph") {
    int w = int(r.range(1, 4)), nb = int(r.range(1, n + 3));
    auto W = std::size_t(w);
    using Rows = std::vector<std::vector<int>>;
    auto gen = [&](int na, int nb_, int most) {
      Rows g;
      for (int i = 0; i < na; ++i) {
        std::vector<int> row;
        for (auto d = r.range(0, most); d > 0; --d) row.push_back(int(r.below(u64(nb_))));
        g.push_back(row);
      }
      return g;
    };
    auto upg = [&](Rows const& g) {
      std::vector<int> off{0}, val;
      for (auto& q : g) {
        val.insert(val.end(), q.begin(), q.end());
        off.push_back(int(val.size()));
      }
      return oh::Graph(up(off), up(val));
    };
    auto wantg = [&](char const* what, oh::Graph g, Rows const& e) {
      auto x = upg(e);
      want(what, down(g.a2ab), down(x.a2ab));
      want(what, down(g.ab2b), down(x.ab2b));
      want1(what, int(g == x), 1);
    };
    auto g = gen(n, nb, 4), g2 = gen(n, nb, 3);
    auto G = upg(g), G2 = upg(g2);
    auto both = g;
    for (std::size_t i = 0; i < sz; ++i) both[i].insert(both[i].end(), g2[i].begin(), g2[i].end());
    wantg("add_edges", oh::add_edges(G, G2), both);
    auto self = g;
    for (std::size_t i = 0; i < sz; ++i) self[i].insert(self[i].begin(), int(i));
    wantg("add_self_edges", oh::add_self_edges(G), self);
    std::vector<int> y;
    for (int i = 0; i < nb * w; ++i) y.push_back(int(r.range(-9, 9)));
    for (auto ro : {OMEGA_H_SUM, OMEGA_H_MAX, OMEGA_H_MIN}) {
      std::vector<int> e;
      for (auto& row : g)
        for (std::size_t j = 0; j < W; ++j) {
          int s = ro == OMEGA_H_SUM ? 0 : ro == OMEGA_H_MAX ? std::numeric_limits<int>::lowest() : std::numeric_limits<int>::max();
          for (int b : row) {
            int v = y[std::size_t(b) * W + j];
            s = ro == OMEGA_H_SUM ? s + v : ro == OMEGA_H_MAX ? std::max(s, v) : std::min(s, v);
          }
          e.push_back(s);
        }
      want("graph_reduce", down(oh::graph_reduce(G, up(y), w, ro)), e);
    }
    if (n) {
      std::vector<int> sel;
      Rows picked;
      for (auto k = r.range(0, n); k > 0; --k) {
        sel.push_back(int(r.below(sz)));
        picked.push_back(g[std::size_t(sel.back())]);
      }
      wantg("unmap_graph", oh::unmap_graph(up(sel), G), picked);
    }
    std::vector<oh::I8> keep;
    Rows kept;
    for (auto& row : g) {
      std::vector<int> q;
      for (int b : row) {
        keep.push_back(r.flip(0.5));
        if (keep.back()) q.push_back(b);
      }
      kept.push_back(q);
    }
    wantg("filter_graph_edges", oh::filter_graph_edges(G, up(keep)), kept);
    // a graph of n nodes with itself
    if (n) {
      auto s = gen(n, n, 4);
      auto m = bytes(r.unit());
      std::vector<int> num(sz, -1);
      int k = 0;
      for (std::size_t i = 0; i < sz; ++i)
        if (m[i]) num[i] = k++;
      Rows left;
      for (std::size_t i = 0; i < sz; ++i) {
        if (!m[i]) continue;
        std::vector<int> q;
        for (int b : s[i])
          if (m[std::size_t(b)]) q.push_back(num[std::size_t(b)]);
        left.push_back(q);
      }
      wantg("filter_graph_nodes", oh::filter_graph_nodes(upg(s), up(m)), left);
    }
    // weighted averages of exact numbers
    std::vector<double> wt, val, e;
    for (auto& row : g)
      for (std::size_t k = 0; k < row.size(); ++k) wt.push_back(std::exp2(double(r.range(-2, 2))));
    for (int v : y) val.push_back(double(v) / 4);
    std::size_t at = 0;
    bool empty_row = false;
    for (auto& row : g) {
      double t = 0;
      for (std::size_t k = 0; k < row.size(); ++k) t += wt[at + k];
      for (std::size_t j = 0; j < W; ++j) {
        double s = 0;
        for (std::size_t k = 0; k < row.size(); ++k) s += wt[at + k] * val[std::size_t(row[k]) * W + j];
        e.push_back(s / t);
      }
      at += row.size();
      if (row.empty()) empty_row = true;
    }
    if (!empty_row && n) want("graph_weighted_average", unsigned_zero(down(oh::graph_weighted_average(G, up(wt), up(val), w))), unsigned_zero(e));
  } else if (op.name == "atomic") {
    int nb = int(r.range(1, 4));
    auto a = ints(0, nb - 1);
    auto b = ints(-5, 5);
    std::vector<int> e(static_cast<std::size_t>(nb), 0), c = e;
    for (std::size_t i = 0; i < sz; ++i) e[std::size_t(a[i])] += b[i], ++c[std::size_t(a[i])];
    auto ra = up(a);
    auto rb = up(b);
    auto g = oh::invert_map_by_atomics(ra, nb);
    want("get_degrees", down(oh::get_degrees(g.a2ab)), c);
    auto m = oh::mark_image(ra, nb);
    std::vector<oh::I8> em;
    for (int k : c) em.push_back(k > 0);
    want("mark_image", down(m), em);
  }
}
void algorithms(Program const& p) {
  std::vector<u64> h(2);
  for (int pass = 0; pass < 2; ++pass) {
    omp_reset(pass ? threads_cfg(p) : OmpCfg());
    auto before = stats.event_hash;
    stats.event_hash = 1;
    auto res = simulate(p, false, 1, [&](Env&) {
      for (auto& op : p.ops) array_op(op);
    });
    h[std::size_t(pass)] = stats.event_hash;
    stats.event_hash = mix(before, stats.event_hash);
    if (res.failed) violate("exception", (pass ? std::to_string(p.get("threads")) + " threads" : std::string("one thread")) + ": " + res.what);
  }
  if (h[0] != h[1]) violate("thread-dependent", "repro_sum gives another result with " + std::to_string(p.get("threads")) + " threads than with one");
  note_threads();
}
// What other checks decide, with teams of threads: their oracles do not depend on threads.
struct Elsewhere {
  char const *property, *name;
  int weight;
};
Elsewhere const elsewhere[] = {{"D02", "adapt_prog", 2}, {"D05", "moving", 2}, {"D05", "moving_hyper", 1}, {"D06", "comm_program", 1}, {"D07", "futures", 1},
    {"D09", "sums", 1}, {"D09", "mesh_stats", 2}, {"D10", "domain", 2}, {"D11", "transfer", 3}, {"D12", "osh_round", 1}, {"D12", "gmsh_round", 1},
    {"D12", "txt_round", 1}, {"D15", "vtk_round", 1}, {"D16", "dist_build", 3}, {"D17", "compare", 2}, {"D18", "array_history", 1}, {"D19", "balance", 2},
    {"D20", "amr_steps", 3}, {"D20", "amr_first", 1}, {"D22", "derive", 4}};
Scenario const& other(i64 k) {
  auto& e = elsewhere[std::size_t(k) % (sizeof elsewhere / sizeof *elsewhere)];
  for (auto& s : scenarios())
    if (s.property == e.property && s.name == e.name) return s;
  std::cerr << "no scenario " << e.property << " " << e.name << "\n";
  std::abort();
}
void any_threads(Program const& p) {
  omp_reset(threads_cfg(p));
  other(p.get("of")).run(p);
  stats.probes["with_" + other(p.get("of")).property] += 1;
  note_threads();
}
void gen_threads(Program& p, Rng& r) {
  p.cfg["threads"] = r.flip(0.3) ? 2 : r.flip(0.1) ? r.range(9, 40) : r.range(2, 8);
  p.cfg["tpolicy"] = i64(r.next() >> 8);
}
std::map<std::string, std::vector<i64>> thread_shrink() {
  auto m = mesh_shrink();
  m["threads"] = {2, 3, 4};
  return m;
}
AddScenario d08a({"D08", "threads_algorithms", 3,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 1, 1.0);
      gen_threads(p, r);
      int n = int(r.range(1, 6));
      static char const* const names[] = {"sort", "small", "scan", "reduce", "invert", "atomic", "each", "maps", "graph"};
      for (int i = 0; i < n; ++i)
        p.ops.push_back({names[r.below(9)], {r.range(0, 999999), r.flip(0.1) ? 0 : r.flip(0.5) ? r.range(1, 20) : r.range(1, 400)}});
      return p;
    },
    algorithms, {{"threads", {2, 3, 4}}, {"poison", {0}}}});
AddScenario d08b({"D08", "threads_adapt", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 3, 0.3);
      gen_threads(p, r);
      gen_box(p, r, r.flip(0.5) ? 0 : 1);
      gen_ops(p, r, int(r.range(1, 3)), "aadrcssjjwGvfftpbgymCRl");
      return p;
    },
    mesh_threads, thread_shrink()});
AddScenario d08c({"D08", "threads_move", 2,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 4, 0.3);
      gen_threads(p, r);
      gen_box(p, r, r.flip(0.5) ? 0 : 1);
      gen_ops(p, r, int(r.range(1, 5)), "ftpbgyYomCRlKjvO");
      return p;
    },
    mesh_threads, thread_shrink()});
AddScenario d08d({"D08", "threads_any", 2,
    [](Rng& r, u64 index) {
      int total = 0, k = 0;
      for (auto& e : elsewhere) total += e.weight;
      int pick = int(r.below(u64(total)));
      while (pick >= elsewhere[k].weight) pick -= elsewhere[k++].weight;
      auto p = other(k).generate(r, index);
      p.cfg["of"] = k;
      gen_threads(p, r);
      return p;
    },
    any_threads, thread_shrink()});
}  // namespace
