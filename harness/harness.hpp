// Programs, scenarios and the run driver.
#ifndef HARNESS_HPP
#define HARNESS_HPP
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "sim.hpp"

using sim::i64;
using sim::Rng;
using sim::u64;

struct Op {
  std::string name;
  std::vector<i64> a;
  i64 arg(std::size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
// One run is fully described by a program plus the decisions taken.
struct Program {
  std::string scenario;
  std::map<std::string, i64> cfg;
  std::vector<Op> ops;
  i64 get(std::string const& k, i64 d = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
  std::string text() const;
};
struct Scenario {
  std::string property, name;
  int weight = 1;
  std::function<Program(Rng&, u64 index)> generate;
  std::function<void(Program const&)> run;
  // smallest values the minimiser may try, per cfg key
  std::map<std::string, std::vector<i64>> shrink;
};
std::vector<Scenario>& scenarios();
struct AddScenario {
  AddScenario(Scenario s) { scenarios().push_back(std::move(s)); }
};
// knobs common to all programs: world shape and schedule
void common_cfg(Program& p, Rng& r, int maxranks, double p_faulty = 0.85);
sim::WorldCfg world_cfg(Program const& p, bool test_world, int nranks = -1);
#endif
