// D19: load balancing: even, and independent of where the elements were.
#include <Omega_h_metric.hpp>
#include <Omega_h_inertia.hpp>
#include <cmath>
#include <cstring>
#include "meshprog.hpp"

namespace {
using sim::mix;
using sim::violate;

struct Share {
  std::vector<double> mass;  // of the elements of this rank
};
// Halves of the ranks are to hold halves of the work, down to single ranks.
void check_even(std::vector<Share> const& s, double slack, std::string const& when) {
  std::vector<double> w;
  for (auto& x : s) {
    double t = 0;
    for (auto m : x.mass) t += m;
    w.push_back(t);
  }
  for (std::size_t len = s.size(); len > 1; len /= 2)
    for (std::size_t at = 0; at < s.size(); at += len) {
      double lo = 0, hi = 0;
      for (std::size_t k = 0; k < len; ++k) (k < len / 2 ? lo : hi) += w[at + k];
      double tol = slack + 1e-9 * (lo + hi);
      if (std::fabs(hi - (lo + hi) / 2) > tol)
        violate("uneven", when + ": ranks " + std::to_string(at) + ".." + std::to_string(at + len / 2 - 1) + " hold work " + std::to_string(lo) + ", ranks " + std::to_string(at + len / 2) + ".." +
                              std::to_string(at + len - 1) + " hold " + std::to_string(hi));
    }
}
void deform(oh::Mesh& m, int kind, u64 seed) {
  int dim = m.dim();
  auto c = oh::HostRead<oh::Real>(m.coords());
  auto g = oh::HostRead<oh::GO>(m.globals(0));
  oh::HostWrite<oh::Real> w(c.size());
  double a = 0.5 + 3 * hash01(seed, 1), b = 0.3 + 2 * hash01(seed, 2);
  for (int v = 0; v < m.nverts(); ++v)
    for (int k = 0; k < dim; ++k) {
      double x = c[v * dim + k];
      if (kind == 0) x += 0.02 * (hash01(mix(seed, u64(g[v])), u64(k)) - 0.5);  // no two alike
      if (kind == 1) x *= k == int(seed % u64(dim)) ? a : b;                    // stretched
      if (kind == 2) x = x * (1 + 0.4 * a * x) + (k ? 0.1 * a * c[v * dim] : 0);     // graded and sheared
      w[v * dim + k] = x;
    }
  m.set_coords(oh::Reals(w.write()));
}
void balance_prog(Program const& p) {
  int n = int(p.get("nranks"));
  std::vector<std::pair<std::string, std::vector<Share>>> record;
  std::vector<double> slack;
  must_run(p, true, n, "balancing", [&](Env& e) {
    auto q = p;
    q.cfg["balance"] = 0;
    auto a = make_box(e.world, q);
    if (p.get("jitter")) deform(a, 0, u64(p.get("jitter")));
    oh::Mesh b = a;
    if (p.get("grow")) {
      // the same mesh, balanced by few ranks before all of them share it
      int g = int(p.get("grow"));
      auto some = e.world->split(e.rank < g ? 0 : 1, e.rank);
      b = oh::Mesh(e.lib.get());
      if (e.rank < g) {
        b = make_box(some, q);
        if (p.get("jitter")) deform(b, 0, u64(p.get("jitter")));
        b.balance();
      }
      b.set_comm(e.world);
    }
    std::size_t at = 0;
    int made = -1;        // the work the axes both remember were found for, if it is still the same
    bool gone = false;    // b has forgotten them
    auto settle = [&](oh::Mesh& m, bool pred, std::string const& when) {
      auto before = m.nglobal_ents(m.dim());
      m.balance(pred);
      if (n > 1 && m.parting() != OMEGA_H_ELEM_BASED) violate("balance-mode", when + ": not element-based afterwards");
      if (m.nglobal_ents(m.dim()) != before) violate("balance-lost", when + ": the number of elements changed");
      for (int d = 0; d <= m.dim() + 1; ++d) {
        double mine = m.nents(std::min(d, m.dim()));
        double want = e.world->allreduce(mine, OMEGA_H_MAX) / (e.world->allreduce(mine, OMEGA_H_SUM) / n);
        double got = d > m.dim() ? m.imbalance() : m.imbalance(d);
        if (std::fabs(got - want) > 1e-12 * want) violate("imbalance", when + ": the reported imbalance of dimension " + std::to_string(d) + " is " + exact(got) + ", it is " + exact(want));
      }
      // what each rank holds now
      Share s;
      double big = 1;
      if (pred) {
        auto c = oh::HostRead<oh::Real>(oh::get_complexity_per_elem(&m, m.get_array<oh::Real>(0, "metric")));
        big = 0;
        for (int i = 0; i < c.size(); ++i) s.mass.push_back((c[i] + 1) / 2), big = std::max(big, s.mass.back());
        big = e.world->allreduce(big, OMEGA_H_MAX);
      } else
        s.mass.assign(std::size_t(m.nelems()), 1.0);
      if (record.size() <= at) record.resize(at + 1), slack.resize(at + 1);
      record[at].first = when;
      record[at].second.resize(std::size_t(n));
      record[at].second[std::size_t(e.rank)] = s;
      slack[at] = 2 * big;
      ++at;
    };
    for (std::size_t k = 0; k < p.ops.size(); ++k) {
      auto& op = p.ops[k];
      u64 s = mix(u64(op.arg(0)), 3);
      if (op.name == "deform") {
        deform(a, int(op.arg(1)), s), deform(b, int(op.arg(1)), s);
        made = -1;
      } else if (op.name == "metric") {
        a.set_parting(OMEGA_H_ELEM_BASED), b.set_parting(OMEGA_H_ELEM_BASED);
        for (auto m : {&a, &b}) {
          auto g = oh::HostRead<oh::GO>(m->globals(0));
          auto x = oh::HostRead<oh::Real>(m->coords());
          oh::HostWrite<oh::Real> w(g.size());
          for (int i = 0; i < g.size(); ++i) w[i] = std::pow(8.0, op.arg(1) ? 1 + 2 * hash01(s, u64(g[i])) : 2 + std::sin(3 * x[i * m->dim()]));
          m->add_tag(0, "metric", 1, oh::Reals(w.write()));
        }
        if (made == 1) made = -1;
      } else if (op.name == "scatter") {
        repartition(b, int(op.arg(1)), s);
        if (op.arg(2)) repartition(a, int(op.arg(3)), s / 3);
      } else if (op.name == "mode") {
        if (n == 1) continue;  // one rank has nothing to balance and keeps its mode
        exec_op(e, op.arg(2) ? a : b, p, Op{"parting", {op.arg(0), op.arg(1)}});
      } else if (op.name == "forget") {
        // the axes of the same mesh: found again, or remembered
        b.set_rib_hints({}), gone = true;
        if (op.arg(0)) a.set_rib_hints({}), made = -1;
      } else if (op.name == "balance") {
        bool pred = op.arg(0) != 0 && a.has_tag(0, "metric");
        // forgotten axes only come back for the same work
        if (gone && made != int(pred)) b.set_rib_hints(a.rib_hints());
        gone = false;
        if (!a.rib_hints()) made = int(pred);
        std::string when = "balance " + std::to_string(k);
        settle(a, pred, when);
        settle(b, pred, when + " from elsewhere");
        auto d = same_part(take_image(a), take_image(b));
        if (!d.empty()) violate("depends-on-history", when + ": what rank " + std::to_string(e.rank) + " of " + std::to_string(n) + " holds depends on where elements were before: " + d);
        if (op.arg(1)) {
          auto was = take_image(a);
          settle(a, pred, when + " again");
          d = same_part(was, take_image(a));
          if (!d.empty()) violate("moves-again", when + ": balancing a balanced mesh changes it: " + d);
        }
      }
    }
  });
  if (p.get("jitter"))
    for (std::size_t k = 0; k < record.size(); ++k) check_even(record[k].second, slack[k], record[k].first);
}
AddScenario d19({"D19", "balance", 1,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 4, 0.7);
      p.cfg["nranks"] = i64(1) << r.range(0, 3);
      gen_box(p, r, 1);
      p.cfg.erase("verbose");
      p.cfg.erase("time");
      p.cfg.erase("region");
      p.cfg.erase("curve");
      int dim = int(p.cfg["dim"]);
      if (dim == 1) p.cfg["nx"] = r.range(1, 40);
      if (dim == 2) p.cfg["nx"] = r.range(1, 8), p.cfg["ny"] = r.range(1, 6);
      if (r.flip(0.2) && dim > 1) p.cfg["hyper"] = 1, p.cfg["sym"] = 0;
      if (r.flip(0.8)) p.cfg["jitter"] = r.range(1, 9999);
      int n = int(p.cfg["nranks"]);
      if (n > 1 && r.flip(0.25)) p.cfg["grow"] = r.flip(0.5) ? 1 : n / 2;
      int k = int(r.range(1, 3));
      for (int i = 0; i < k; ++i) {
        int m = int(r.range(0, 3));
        while (m--) switch (r.below(5)) {
            case 0: p.ops.push_back({"deform", {r.range(0, 9999), r.range(1, 2)}}); break;
            case 1:
              if (!p.get("hyper")) p.ops.push_back({"metric", {r.range(0, 9999), r.range(0, 1)}});
              break;
            case 2: p.ops.push_back({"mode", {r.range(0, 2), r.range(1, 2), r.range(0, 1)}}); break;
            case 3: p.ops.push_back({"forget", {r.range(0, 1)}}); break;
            default: p.ops.push_back({"scatter", {r.range(0, 9999), r.range(0, 5), r.range(0, 1), r.range(0, 5)}});
          }
        p.ops.push_back({"scatter", {r.range(0, 9999), r.range(0, 5), r.range(0, 1), r.range(0, 5)}});
        p.ops.push_back({"balance", {r.range(0, 1), r.flip(0.3)}});
      }
      return p;
    },
    balance_prog, [] {
      auto m = mesh_shrink();
      m["hyper"] = {0};
      m["grow"] = {0};
      m["nranks"] = {1, 2, 4};
      m["jitter"] = {0, 1};
      return m;
    }()});
}  // namespace
