// Out-of-band images of distributed meshes and the oracles over them.
#ifndef H_MESH_HPP
#define H_MESH_HPP
#include <Omega_h_adapt.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_comm.hpp>
#include <Omega_h_dist.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_library.hpp>
#include <Omega_h_mesh.hpp>
#include <memory>
#include "harness.hpp"

namespace oh = Omega_h;

struct TagImg {
  int type = 0, ncomps = 0;
  std::size_t width = 0;  // bytes per entity
  std::vector<char> data;
};
struct DimImg {
  int deg = 0;  // vertices per entity
  std::vector<i64> gids, verts;
  std::vector<int> own_rank, own_idx;
  std::vector<i64> down;  // globals of (d-1) entities
  int down_deg = 0;
  std::map<std::string, TagImg> tags;
  std::size_t n() const { return gids.size(); }
};
struct PartImg {  // what one rank holds
  int dim = 0, family = 0, parting = 0, nlayers = 0, nranks = 1;
  DimImg d[4];
  std::map<std::string, std::vector<std::pair<int, int>>> class_sets;
  bool has_parents = false;
};
struct Canon {  // rank-independent form
  int dim = 0, family = 0;
  struct Ent {
    i64 gid;
    int part, idx;
  };
  std::vector<Ent> ents[4];  // sorted by global id, one per global
  std::vector<PartImg> parts;
};
PartImg take_image(oh::Mesh& mesh);
struct CheckOpts {
  bool geometry = true;      // simplex volumes, facets
  bool box = false;          // domain is a box of this volume
  double volume = 0;
  bool dense_globals = true;
  bool ghost_exact = true;
  bool copies_tags = true;
};
// Invariants of a distributed mesh; violates "mesh-..." kinds.
void check_parts(std::vector<PartImg> const& parts, CheckOpts const& o, std::string const& when);
Canon canonical(std::vector<PartImg> parts);
// Empty when equal, else a description of the first difference. Real tags
// named in `approx` are compared with that relative tolerance.
struct CmpOpts {
  double real_tol = 0;
  bool globals_from_coords = false;
  std::vector<std::string> skip;
};
std::string compare(Canon const& a, Canon const& b, CmpOpts const& o = {});
u64 canon_hash(Canon const& c);
// exact equality of two ranks' parts, local order included
std::string same_part(PartImg const& a, PartImg const& b);
// every derived relation of the local mesh agrees with its stored adjacency
void check_local(oh::Mesh& m, std::string const& when);

// one simulated rank's library context
struct Env {
  std::vector<std::string> args;
  std::vector<char*> argv;
  int argc;
  std::unique_ptr<oh::Library> lib;
  oh::CommPtr world;
  int rank;
  explicit Env(Program const& p);
  ~Env();
};
// run body on every rank; any rank ending with an exception is returned
sim::WorldResult simulate(Program const& p, bool test_world, int nranks, std::function<void(Env&)> body, sim::u64 step_budget = 0);
// as above, but an exception is a violation
void must_run(Program const& p, bool test_world, int nranks, std::string const& what, std::function<void(Env&)> body);

oh::Mesh make_box(oh::CommPtr comm, Program const& p);
// migrate to an arbitrary element partition derived from (kind, seed)
oh::ClassSets box_sets(int dim);
void repartition(oh::Mesh& mesh, int kind, u64 seed);
void split_regions(oh::Mesh& mesh, double plane);
double hash01(u64 a, u64 b);
#endif
