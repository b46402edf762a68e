// Interpreter of mesh programs: sequences of library operations applied by
// every rank to one distributed mesh, with an image recorded after each.
#ifndef H_MESHPROG_HPP
#define H_MESHPROG_HPP
#include "mesh.hpp"

struct Trace {
  std::vector<std::vector<PartImg>> steps;        // [step][rank]
  std::vector<std::vector<std::string>> notes;    // [step][rank]: results every rank must agree on
  std::vector<std::string> names;
  bool failed = false;
  std::string what;
  int fail_rank = -1;
};
// run the program on n ranks
Trace run_program(Program const& p, bool test_world, int nranks, bool every_step = true);
// operations; returns a note (rank-independent result)
std::string exec_op(Env& e, oh::Mesh& m, Program const& p, Op const& op);
void set_metric_target(oh::Mesh& m, int kind, u64 seed, int strength);
oh::AdaptOpts make_opts(oh::Mesh& m, Program const& p);
void add_fields(oh::Mesh& m, int which, u64 seed);
void add_random_tags(oh::Mesh& m, u64 seed);
bool empty_rank_abort(std::string const& what);
bool input_rejected(Trace const& t);
bool benign_stall(std::string const& what);
// program generators
void gen_box(Program& p, Rng& r, int size_class);
void gen_ops(Program& p, Rng& r, int n, std::string const& mix);
std::string exact(double v);
std::map<std::string, std::vector<i64>> mesh_shrink();
// checks
void check_class_sets(Trace const& t);
void check_steps(Trace const& t, CheckOpts const& o, std::string const& who);
void agree_notes(Trace const& t, std::string const& who);
void compare_traces(Trace const& a, Trace const& b, std::string const& who, CmpOpts const& o = {});
CheckOpts box_opts(Program const& p);
#endif
