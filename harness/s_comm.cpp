// Communication primitives against a model every rank can evaluate alone.
#include <Omega_h_functors.hpp>
#include <Omega_h_int128.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_owners.hpp>
#include <Omega_h_remotes.hpp>
#include <algorithm>
#include <sstream>
#include "mesh.hpp"
using namespace sim;

namespace {
struct Ctx {
  oh::CommPtr c;
  std::vector<int> members;  // world rank of each rank of c
  int me = 0;
  u64 id = 1;
  int n() const { return int(members.size()); }
};
template <class T>
T val(u64 s, u64 a, u64 b = 0) {
  u64 h = mix(mix(s, a), b);
  if (std::is_floating_point<T>::value) return T(double(i64(h % 2000001) - 1000000) * 0.125);
  if (sizeof(T) == 1) return T(i64(h % 5) - 2);
  if (sizeof(T) == 4) return T(i64(h % 2000001) - 1000000);
  return T(i64(h >> 8) - (i64(1) << 54));
}
[[noreturn]] void bad(std::string const& what) { violate("comm-primitive", what); }
template <class T>
void expect(bool ok, char const* what, Ctx const& x, T got, T want) {
  if (ok) return;
  std::ostringstream o;
  o << what << " on rank " << x.me << " of " << x.n() << ": got " << +got << ", expected " << +want;
  bad(o.str());
}
template <class T>
T combine(T a, T b, Omega_h_Op op) {
  return op == OMEGA_H_SUM ? T(a + b) : op == OMEGA_H_MIN ? std::min(a, b) : std::max(a, b);
}
Omega_h_Op op_of(u64 k) { return k % 3 == 0 ? OMEGA_H_SUM : k % 3 == 1 ? OMEGA_H_MIN : OMEGA_H_MAX; }

template <class T>
void collectives(Ctx& x, u64 s) {
  for (int k = 0; k < 3; ++k) {
    auto op = op_of(u64(k));
    T got = x.c->allreduce(val<T>(s, u64(x.me)), op);
    T want = val<T>(s, 0);
    for (int r = 1; r < x.n(); ++r) want = combine(want, val<T>(s, u64(r)), op);
    expect(got == want, "allreduce", x, got, want);
  }
  {
    T got = x.c->exscan(val<T>(s, u64(x.me)), OMEGA_H_SUM);
    T want = 0;
    for (int r = 0; r < x.me; ++r) want = T(want + val<T>(s, u64(r)));
    expect(got == want, "exclusive scan", x, got, want);
  }
  {
    int root = int(s % u64(x.n()));
    T got = val<T>(s, u64(x.me));
    x.c->bcast(got, root);
    expect(got == val<T>(s, u64(root)), "broadcast", x, got, val<T>(s, u64(root)));
  }
}
std::string word(u64 s, u64 r) {
  std::string w;
  u64 n = mix(s, r) % 40;
  for (u64 i = 0; i < n; ++i) w += char('a' + mix(s + i, r) % 26);
  return w;
}
std::map<u64, int> arrivals;  // shared by all simulated ranks: the simulator's own bookkeeping

// directed graph: does rank a send to rank b?
bool edge(u64 s, int a, int b, int dens) { return int(mix(mix(s, u64(a)), u64(b)) % 8) < dens; }

template <class T>
void neighbour(Ctx& x, oh::CommPtr g, u64 s, std::function<bool(int, int)> sends) {
  std::vector<int> src, dst;
  for (int r = 0; r < x.n(); ++r) {
    if (sends(r, x.me)) src.push_back(r);
    if (sends(x.me, r)) dst.push_back(r);
  }
  auto gs = oh::HostRead<oh::I32>(g->sources()), gd = oh::HostRead<oh::I32>(g->destinations());
  bool ok = gs.size() == int(src.size()) && gd.size() == int(dst.size());
  for (int i = 0; ok && i < gs.size(); ++i) ok = gs[i] == src[std::size_t(i)];
  if (!ok) bad("neighbour discovery gives the wrong sources on rank " + std::to_string(x.me) + " of " + std::to_string(x.n()));
  std::vector<int> order;
  for (int i = 0; i < gd.size(); ++i) order.push_back(gd[i]);
  {
    auto got = oh::HostRead<T>(g->allgather(val<T>(s, u64(x.me))));
    if (got.size() != int(src.size())) bad("neighbour allgather has the wrong size");
    for (int i = 0; i < got.size(); ++i) {
      auto want = val<T>(s, u64(src[std::size_t(i)]));
      expect(got[i] == want, "neighbour allgather", x, got[i], want);
    }
  }
  {
    oh::HostWrite<T> w(int(order.size()));
    for (int i = 0; i < w.size(); ++i) w[i] = val<T>(s, u64(x.me), u64(order[std::size_t(i)]) + 100);
    auto got = oh::HostRead<T>(g->alltoall(oh::Read<T>(w.write())));
    if (got.size() != int(src.size())) bad("neighbour alltoall has the wrong size");
    for (int i = 0; i < got.size(); ++i) {
      auto want = val<T>(s, u64(src[std::size_t(i)]), u64(x.me) + 100);
      expect(got[i] == want, "neighbour alltoall", x, got[i], want);
    }
  }
  {
    int width = 1 + int(mix(s, 5) % 4);
    auto count = [&](int a, int b) { return 1 + int(mix(mix(s, u64(a) + 7), u64(b)) % 5); };
    oh::HostWrite<oh::LO> so(int(order.size()) + 1), ro(int(src.size()) + 1);
    so[0] = ro[0] = 0;
    for (std::size_t i = 0; i < order.size(); ++i) so[int(i) + 1] = so[int(i)] + count(x.me, order[i]);
    for (std::size_t i = 0; i < src.size(); ++i) ro[int(i) + 1] = ro[int(i)] + count(src[i], x.me);
    oh::HostWrite<T> w(so[int(order.size())] * width);
    for (std::size_t i = 0; i < order.size(); ++i)
      for (int k = so[int(i)] * width, j = 0; k < so[int(i) + 1] * width; ++k, ++j) w[k] = val<T>(s + u64(j), u64(x.me), u64(order[i]));
    auto total = ro[int(src.size())];
    oh::HostRead<oh::LO> roh(oh::LOs(ro.write()));
    auto got = oh::HostRead<T>(g->alltoallv(oh::Read<T>(w.write()), oh::LOs(so.write()), oh::LOs(ro.write()), width));
    if (got.size() != total * width) bad("neighbour alltoallv has the wrong size");
    for (std::size_t i = 0; i < src.size(); ++i)
      for (int k = roh[int(i)] * width, j = 0; k < roh[int(i) + 1] * width; ++k, ++j) {
        auto want = val<T>(s + u64(j), u64(src[i]), u64(x.me));
        expect(got[k] == want, "neighbour alltoallv", x, got[k], want);
      }
  }
}

// a distributed graph every rank can enumerate: items of rank r
struct Item {
  int src_rank, src_root, dst_rank, dst_idx;
  i64 global;
};
struct DistModel {
  std::vector<int> nroots_f, nroots_r;
  std::vector<std::vector<Item>> items;  // by source rank, in item order
};
DistModel dist_model(Ctx const& x, u64 s) {
  DistModel m;
  Rng r(s);
  int shape = int(r.below(4));
  for (int k = 0; k < x.n(); ++k) {
    m.nroots_f.push_back(shape == 1 && r.flip(0.5) ? 0 : int(r.below(7)));
    m.nroots_r.push_back(r.flip(0.2) ? 0 : int(r.below(6)));
  }
  std::vector<int> ok;
  for (int k = 0; k < x.n(); ++k)
    if (m.nroots_r[std::size_t(k)]) ok.push_back(k);
  i64 g = 0;
  for (int k = 0; k < x.n(); ++k) {
    std::vector<Item> v;
    for (int q = 0; q < m.nroots_f[std::size_t(k)]; ++q) {
      int fan = shape == 2 ? 1 : int(r.below(4));
      if (ok.empty()) fan = 0;
      for (int f = 0; f < fan; ++f) {
        int d = shape == 3 ? ok[0] : ok[r.below(ok.size())];
        v.push_back({k, q, d, int(r.below(u64(m.nroots_r[std::size_t(d)]))), g++});
      }
    }
    m.items.push_back(v);
  }
  // unique scattered globals
  std::vector<i64> ids(std::size_t(g), 0);
  for (i64 i = 0; i < g; ++i) ids[std::size_t(i)] = i;
  for (std::size_t i = ids.size(); i > 1; --i) std::swap(ids[i - 1], ids[r.below(i)]);
  for (auto& v : m.items)
    for (auto& it : v) it.global = ids[std::size_t(it.global)];
  return m;
}
template <class T>
void check_exchange(Ctx& x, oh::Dist const& d, DistModel const& m, u64 s, bool by_global, bool fan, char const* who) {
  auto me = std::size_t(x.me);
  int width = 1 + int(mix(s, 9) % 3);
  auto& mine = m.items[me];
  int nsrc = fan ? m.nroots_f[me] : int(mine.size());
  if (d.nitems() != int(mine.size())) bad(std::string(who) + ": wrong number of items");
  if (d.nsrcs() != nsrc) bad(std::string(who) + ": wrong number of sources");
  auto value = [&](Item const& it, int q, int c) {  // what this item carries
    return fan ? val<T>(s + u64(c), u64(it.src_rank), u64(it.src_root)) : val<T>(s + u64(c), u64(it.src_rank) + 1000, u64(q));
  };
  oh::HostWrite<T> w(nsrc * width);
  if (fan) {
    for (int i = 0; i < nsrc; ++i)
      for (int c = 0; c < width; ++c) w[i * width + c] = val<T>(s + u64(c), u64(x.me), u64(i));
  } else {
    for (int i = 0; i < nsrc; ++i)
      for (int c = 0; c < width; ++c) w[i * width + c] = value(mine[std::size_t(i)], i, c);
  }
  auto data = oh::Read<T>(w.write());
  bool nb = mix(s, 13) % 3 == 0;  // the same through the non-blocking form
  auto got = oh::HostRead<T>(nb ? d.iexch(data, width).get() : d.exch(data, width));
  // expected: per destination (root or global) the multiset of carried tuples
  std::map<i64, std::multiset<std::vector<T>>> want;
  int total = 0;
  for (auto& v : m.items)
    for (std::size_t q = 0; q < v.size(); ++q)
      if (v[q].dst_rank == x.me) {
        std::vector<T> t;
        for (int c = 0; c < width; ++c) t.push_back(value(v[q], int(q), c));
        want[by_global ? v[q].global : v[q].dst_idx].insert(t);
        ++total;
      }
  if (got.size() != total * width)
    bad(std::string(who) + ": exchange gave " + std::to_string(got.size()) + " values, expected " + std::to_string(total * width));
  int at = 0;
  for (auto& kv : want) {
    std::multiset<std::vector<T>> have;
    for (std::size_t k = 0; k < kv.second.size(); ++k, ++at) {
      std::vector<T> t;
      for (int c = 0; c < width; ++c) t.push_back(got[at * width + c]);
      have.insert(t);
    }
    if (have != kv.second)
      bad(std::string(who) + ": wrong data arrived for destination " + std::to_string(kv.first) + " on rank " + std::to_string(x.me) + " of " + std::to_string(x.n()));
  }
  if (by_global) return;
  // reduction to destination roots
  for (int k = 0; k < 3; ++k) {
    auto op = op_of(u64(k));
    auto red = oh::HostRead<T>(d.exch_reduce(data, width, op));
    if (red.size() != m.nroots_r[me] * width) bad(std::string(who) + ": reduced exchange has the wrong size");
    for (int r = 0; r < m.nroots_r[me]; ++r) {
      auto it = want.find(r);
      for (int c = 0; c < width; ++c) {
        if (it == want.end()) {
          if (op == OMEGA_H_SUM && red[r * width + c] != 0) bad(std::string(who) + ": a destination without sources must sum to zero");
          continue;
        }
        bool first = true;
        T acc = 0;
        for (auto& t : it->second) acc = first ? t[std::size_t(c)] : combine(acc, t[std::size_t(c)], op), first = false;
        expect(red[r * width + c] == acc, who, x, red[r * width + c], acc);
      }
    }
  }
  // reverse: from destination roots back to items
  auto inv = d.invert();
  oh::HostWrite<T> b(m.nroots_r[me] * width);
  for (int r = 0; r < m.nroots_r[me]; ++r)
    for (int c = 0; c < width; ++c) b[r * width + c] = val<T>(s + 31 + u64(c), u64(x.me), u64(r));
  auto bw = oh::Read<T>(b.write());
  auto back = oh::HostRead<T>(nb ? inv.iexch(bw, width).get() : inv.exch(bw, width));
  if (back.size() != int(mine.size()) * width) bad(std::string(who) + ": reverse exchange has the wrong size");
  for (std::size_t q = 0; q < mine.size(); ++q)
    for (int c = 0; c < width; ++c) {
      auto w2 = val<T>(s + 31 + u64(c), u64(mine[q].dst_rank), u64(mine[q].dst_idx));
      expect(back[int(q) * width + c] == w2, who, x, back[int(q) * width + c], w2);
    }
}
void dist_op(Ctx& x, u64 s, int variant) {
  auto m = dist_model(x, s);
  auto me = std::size_t(x.me);
  auto& mine = m.items[me];
  bool by_global = variant == 1, fan = variant != 2;
  oh::HostWrite<oh::I32> ranks(int(mine.size()));
  oh::HostWrite<oh::LO> idxs(int(mine.size()));
  oh::HostWrite<oh::GO> globs(int(mine.size()));
  for (std::size_t q = 0; q < mine.size(); ++q) ranks[int(q)] = mine[q].dst_rank, idxs[int(q)] = mine[q].dst_idx, globs[int(q)] = mine[q].global;
  oh::HostWrite<oh::LO> f(m.nroots_f[me] + 1);
  f[0] = 0;
  for (int r = 0; r < m.nroots_f[me]; ++r) {
    int k = 0;
    for (auto& it : mine) k += it.src_root == r;
    f[r + 1] = f[r] + k;
  }
  oh::Dist d;
  oh::Read<oh::I32> rk(ranks.write());
  oh::LOs ix(idxs.write());
  if (by_global) {
    d.set_parent_comm(x.c);
    d.set_dest_ranks(rk);
    d.set_dest_globals(oh::GOs(globs.write()));
  } else
    d = oh::Dist(x.c, oh::Remotes(rk, ix), m.nroots_r[me]);
  if (fan) d.set_roots2items(oh::LOs(f.write()));
  auto all = [&](oh::Dist const& q, char const* who) {
    check_exchange<oh::I8>(x, q, m, s + 1, by_global, fan, who);
    check_exchange<oh::I32>(x, q, m, s + 2, by_global, fan, who);
    check_exchange<oh::I64>(x, q, m, s + 3, by_global, fan, who);
    check_exchange<oh::Real>(x, q, m, s + 4, by_global, fan, who);
  };
  all(d, "exchange plan");
  if (!by_global) {
    auto dst = d.items2dests();
    auto hr = oh::HostRead<oh::I32>(dst.ranks);
    auto hi = oh::HostRead<oh::LO>(dst.idxs);
    if (hr.size() != int(mine.size()) || hi.size() != int(mine.size())) bad("exchange plan: destinations have the wrong size");
    for (std::size_t q = 0; q < mine.size(); ++q)
      if (hr[int(q)] != mine[q].dst_rank || hi[int(q)] != mine[q].dst_idx) bad("exchange plan reports the wrong destination of an item");
    if (d.ndests() != m.nroots_r[me]) bad("exchange plan: wrong number of destinations");
    auto twice = d.invert().invert();
    all(twice, "exchange plan inverted twice");
  }
  // the same pattern carried over to a communicator with other rank numbers
  if (mix(s, 77) % 2) {
    auto key = [&](int r) { return int(mix(s, 400 + u64(r)) % 1000); };
    std::vector<int> ord;
    for (int r = 0; r < x.n(); ++r) ord.push_back(r);
    std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return key(a) < key(b); });
    auto c2 = x.c->split(0, key(x.me));
    std::vector<int> pos(ord.size());
    for (std::size_t k = 0; k < ord.size(); ++k) pos[std::size_t(ord[k])] = int(k);
    if (c2->rank() != pos[me]) bad("split does not order ranks by key");
    oh::Dist d2 = d;
    d2.change_comm(c2);
    if (d2.parent_comm()->size() != c2->size() || d2.parent_comm()->rank() != c2->rank())
      bad("exchange plan on another communicator still belongs to the old one");
    all(d2, "exchange plan on another communicator");
    all(d, "exchange plan after its copy changed communicator");
    if (!by_global) {
      auto hr = oh::HostRead<oh::I32>(d2.items2ranks());
      for (std::size_t q = 0; q < mine.size(); ++q)
        if (hr[int(q)] != pos[std::size_t(mine[q].dst_rank)]) bad("exchange plan on another communicator reports an old rank");
    }
  }
}
void owners_op(Ctx& x, u64 s, bool given) {
  // every global is held by a random non-empty set of ranks
  Rng r(s);
  int ng = int(r.below(20));
  std::vector<std::vector<int>> holders;
  std::vector<int> owner;
  for (int g = 0; g < ng; ++g) {
    std::vector<int> h;
    for (int k = 0; k < x.n(); ++k)
      if (r.flip(0.4)) h.push_back(k);
    if (h.empty()) h.push_back(int(r.below(u64(x.n()))));
    owner.push_back(h[r.below(h.size())]);
    holders.push_back(h);
  }
  std::vector<std::vector<int>> local(std::size_t(x.n()), std::vector<int>{});
  for (int k = 0; k < x.n(); ++k) {
    std::vector<int> v;
    for (int g = 0; g < ng; ++g)
      if (std::count(holders[std::size_t(g)].begin(), holders[std::size_t(g)].end(), k)) v.push_back(g);
    for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[mix(s + u64(k), i) % i]);
    local[std::size_t(k)] = v;
  }
  auto& mine = local[std::size_t(x.me)];
  oh::HostWrite<oh::GO> gl(int(mine.size()));
  oh::HostWrite<oh::I32> ow(int(mine.size()));
  for (std::size_t i = 0; i < mine.size(); ++i) gl[int(i)] = mine[i], ow[int(i)] = owner[std::size_t(mine[i])];
  auto rem = oh::owners_from_globals(x.c, oh::GOs(gl.write()), given ? oh::Read<oh::I32>(ow.write()) : oh::Read<oh::I32>());
  auto hr = oh::HostRead<oh::I32>(rem.ranks);
  auto hi = oh::HostRead<oh::LO>(rem.idxs);
  if (hr.size() != int(mine.size())) bad("ownership resolution has the wrong size");
  // fewest copies wins, then the lowest rank
  for (std::size_t i = 0; i < mine.size(); ++i) {
    int want = owner[std::size_t(mine[i])];
    if (!given) {
      want = -1;
      for (int k : holders[std::size_t(mine[i])])
        if (want < 0 || local[std::size_t(k)].size() < local[std::size_t(want)].size()) want = k;
    }
    if (given && hr[int(i)] != want) bad("ownership resolution ignores the given owner");
    int o = hr[int(i)];
    if (o < 0 || o >= x.n()) bad("ownership resolution gives a rank that does not exist");
    auto& lo = local[std::size_t(o)];
    if (hi[int(i)] < 0 || hi[int(i)] >= int(lo.size()) || lo[std::size_t(hi[int(i)])] != mine[i])
      bad("ownership resolution points at an entity with another global number");
    // all copies agree: fold (owner) into an agreement check
  }
  for (int g = 0; g < ng; ++g) {
    int o = -1;
    for (std::size_t i = 0; i < mine.size(); ++i)
      if (mine[i] == g) o = hr[int(i)];
    int lo = x.c->allreduce(o < 0 ? 1 << 20 : o, OMEGA_H_MIN), hi2 = x.c->allreduce(o, OMEGA_H_MAX);
    if (lo != hi2) bad("copies disagree about their owner");
  }
}
void varsized_op(Ctx& x0, u64 s) {
  auto x = x0;
  // actors owned by rank a%n, copied to random ranks, with a variable amount of data each
  Rng r(s);
  int na = int(r.below(10));
  std::vector<std::vector<int>> local(std::size_t(x.n()), std::vector<int>{});
  std::vector<int> amount, owner;
  for (int a = 0; a < na; ++a) {
    amount.push_back(int(r.below(4)));
    owner.push_back(int(r.below(u64(x.n()))));
    for (int k = 0; k < x.n(); ++k)
      if (k == owner.back() || r.flip(0.4)) local[std::size_t(k)].push_back(a);
  }
  auto& mine = local[std::size_t(x.me)];
  oh::HostWrite<oh::I32> rk(int(mine.size()));
  oh::HostWrite<oh::LO> ix(int(mine.size())), fan(int(mine.size()) + 1);
  fan[0] = 0;
  for (std::size_t i = 0; i < mine.size(); ++i) {
    auto a = std::size_t(mine[i]);
    rk[int(i)] = owner[a];
    auto& lo = local[std::size_t(owner[a])];
    ix[int(i)] = int(std::find(lo.begin(), lo.end(), mine[i]) - lo.begin());
    fan[int(i) + 1] = fan[int(i)] + amount[a];
  }
  oh::Dist copies2owners(x.c, oh::Remotes(oh::Read<oh::I32>(rk.write()), oh::LOs(ix.write())), int(mine.size()));
  oh::LOs f(fan.write());
  if (mix(s, 3) % 2) {  // the plan may have moved to a communicator with other rank numbers
    auto key = [&](int r) { return int(mix(s, 700 + u64(r)) % 1000); };
    copies2owners.change_comm(x.c->split(0, key(x.me)));
  }
  auto d = oh::create_dist_for_variable_sized(copies2owners, f);
  auto own2copy = d.invert();
  oh::HostRead<oh::LO> fh(f);
  oh::HostWrite<oh::I64> w(fh.last());
  for (std::size_t i = 0; i < mine.size(); ++i)
    for (int k = fh[int(i)]; k < fh[int(i) + 1]; ++k)
      w[k] = owner[std::size_t(mine[i])] == x.me ? val<oh::I64>(s, u64(mine[i]), u64(k - fh[int(i)])) : -1;
  auto got = oh::HostRead<oh::I64>(own2copy.exch(oh::Read<oh::I64>(w.write()), 1));
  for (std::size_t i = 0; i < mine.size(); ++i)
    for (int k = fh[int(i)]; k < fh[int(i) + 1]; ++k) {
      auto want = val<oh::I64>(s, u64(mine[i]), u64(k - fh[int(i)]));
      expect(got[k] == want, "variable-sized exchange", x, got[k], want);
    }
}
void linear_op(Ctx& x, u64 s) {
  Rng r(s);
  i64 total = i64(r.below(40));
  auto n = oh::linear_partition_size(x.c, total);
  i64 sum = x.c->allreduce(oh::GO(n), OMEGA_H_SUM);
  expect(sum == total, "linear partition sizes", x, sum, total);
  auto start = x.c->exscan(oh::GO(n), OMEGA_H_SUM);
  // everyone asks for random globals; owner ranks and indices must be those of the linear layout
  int k = total ? int(r.below(15)) : 0;
  oh::HostWrite<oh::GO> g(k);
  for (int i = 0; i < k; ++i) g[i] = i64(mix(s + u64(x.me), u64(i)) % u64(total));
  oh::GOs gg(g.write());
  auto rem = oh::globals_to_linear_owners(x.c, gg, total);
  oh::Dist d(x.c, rem, n);
  oh::HostWrite<oh::GO> own(n);
  for (int i = 0; i < n; ++i) own[i] = start + i;
  auto back = oh::HostRead<oh::GO>(d.invert().exch(oh::GOs(own.write()), 1));
  auto gh = oh::HostRead<oh::GO>(gg);
  for (int i = 0; i < k; ++i) expect(back[i] == gh[i], "linear owner lookup", x, back[i], gh[i]);
}
void sendrecv_op(Ctx& x, u64 s) {
  int n = x.n();
  if (n < 2) return;
  int to = (x.me + 1) % n, from = (x.me + n - 1) % n;
  auto vec = [&](int a) {
    std::vector<double> v(mix(s, u64(a)) % 9);
    for (std::size_t i = 0; i < v.size(); ++i) v[i] = val<double>(s, u64(a), i);
    return v;
  };
  auto mine = vec(x.me), want = vec(from);
  std::vector<double> got(3, 5.0);
  if (x.me == 0) {
    x.c->send(to, mine);
    x.c->recv(from, got);
  } else {
    x.c->recv(from, got);
    x.c->send(to, mine);
  }
  if (got != want) bad("point-to-point vector arrived wrong");
}
void run_op(Ctx& x, Op const& op, u64 seq) {
  u64 s = mix(u64(op.arg(0)), 17);
  auto const& n = op.name;
  if (n == "coll") {
    collectives<oh::I8>(x, s);
    collectives<oh::I32>(x, s + 1);
    collectives<oh::I64>(x, s + 2);
    collectives<oh::Real>(x, s + 3);
  } else if (n == "string") {
    int root = int(op.arg(1)) % x.n();
    auto w = word(s, u64(x.me));
    x.c->bcast_string(w, root);
    if (w != word(s, u64(root)))
      bad("string broadcast from rank " + std::to_string(root) + " gives '" + w + "' on rank " + std::to_string(x.me) + ", expected '" + word(s, u64(root)) + "'");
  } else if (n == "logic") {
    auto f = [&](int r) { return mix(s, u64(r)) % 4 < u64(op.arg(1)); };
    bool any = false, all = true;
    for (int r = 0; r < x.n(); ++r) any |= f(r), all &= f(r);
    if (x.c->reduce_or(f(x.me)) != any) bad("logical or over ranks is wrong");
    if (x.c->reduce_and(f(x.me)) != all) bad("logical and over ranks is wrong");
  } else if (n == "int128") {
    __int128 want = 0;
    auto part = [&](int r) { return (__int128(i64(mix(s, u64(r)))) << int(mix(s, u64(r) + 50) % 50)) + i64(mix(s, u64(r) + 9) % 1000); };
    for (int r = 0; r < x.n(); ++r) want += part(r);
    auto p = part(x.me);
    oh::Int128 a(oh::I64(p >> 64), std::uint64_t(p));
    auto got = x.c->add_int128(a);
    if (got.high != oh::I64(want >> 64) || got.low != std::uint64_t(want)) bad("128-bit sum over ranks is wrong");
  } else if (n == "barrier") {
    ++arrivals[mix(x.id, seq)];
    x.c->barrier();
    if (arrivals[mix(x.id, seq)] != x.n()) bad("a rank left a barrier before all ranks entered it");
  } else if (n == "graph") {
    int dens = int(op.arg(1));
    std::vector<int> dst;
    for (int r = 0; r < x.n(); ++r)
      if (edge(s, x.me, r, dens)) dst.push_back(r);
    if (op.arg(2))  // destinations may come in any order
      for (std::size_t i = dst.size(); i > 1; --i) std::swap(dst[i - 1], dst[mix(s + 3, i + u64(x.me)) % i]);
    oh::HostWrite<oh::I32> d(int(dst.size()));
    for (std::size_t i = 0; i < dst.size(); ++i) d[int(i)] = dst[i];
    auto g = x.c->graph(oh::Read<oh::I32>(d.write()));
    auto fw = [&](int a, int b) { return edge(s, a, b, dens); };
    auto bw = [&](int a, int b) { return edge(s, b, a, dens); };
    neighbour<oh::I8>(x, g, s + 1, fw);
    neighbour<oh::I32>(x, g, s + 2, fw);
    neighbour<oh::Real>(x, g, s + 3, fw);
    if (!op.arg(2)) {
      auto gi = g->graph_inverse();
      neighbour<oh::I64>(x, gi, s + 4, bw);
      neighbour<oh::I64>(x, gi->graph_inverse(), s + 5, fw);
    }
    neighbour<oh::I64>(x, g, s + 6, fw);
  } else if (n == "dist") {
    dist_op(x, s, int(op.arg(1)));
  } else if (n == "owners") {
    owners_op(x, s, op.arg(1) != 0);
  } else if (n == "varsized") {
    varsized_op(x, s);
  } else if (n == "linear") {
    linear_op(x, s);
  } else if (n == "sendrecv") {
    sendrecv_op(x, s);
  } else
    harness_error("comm op " + n);
}
Ctx derive(Ctx const& x, Op const& op) {
  u64 s = mix(u64(op.arg(0)), 23);
  Ctx y;
  y.id = mix(x.id, s);
  if (op.name == "dup") {
    y.c = x.c->dup();
    y.members = x.members;
    y.me = x.me;
  } else {
    int nc = 1 + int(op.arg(1)) % 3;
    auto color = [&](int r) { return int(mix(s, u64(r)) % u64(nc)); };
    auto key = [&](int r) { return int(mix(s, u64(r) + 60) % (op.arg(2) ? 3 : 1000)); };
    std::vector<int> in;
    for (int r = 0; r < x.n(); ++r)
      if (color(r) == color(x.me)) in.push_back(r);
    std::stable_sort(in.begin(), in.end(), [&](int a, int b) { return key(a) < key(b); });
    y.c = x.c->split(color(x.me), key(x.me));
    for (std::size_t k = 0; k < in.size(); ++k) {
      y.members.push_back(x.members[std::size_t(in[k])]);
      if (in[k] == x.me) y.me = int(k);
    }
    y.id = mix(y.id, u64(color(x.me)));
  }
  if (y.c->size() != y.n() || y.c->rank() != y.me) bad("derived communicator has the wrong size or rank order");
  return y;
}
void comm_prog(Program const& p) {
  arrivals.clear();
  must_run(p, true, int(p.get("nranks")), "communication program", [&](Env& e) {
    std::vector<Ctx> stack(1);
    stack[0].c = e.world;
    for (int r = 0; r < e.world->size(); ++r) stack[0].members.push_back(r);
    stack[0].me = e.rank;
    u64 seq = 0;
    for (auto& op : p.ops) {
      ++seq;
      if (op.name == "dup" || op.name == "split") {
        if (stack.size() < 4) stack.push_back(derive(stack.back(), op));
      } else if (op.name == "pop") {
        if (stack.size() > 1) stack.pop_back();
      } else
        run_op(stack.back(), op, seq);
    }
  });
}
Program gen_comm(Rng& r, u64) {
  Program p;
  common_cfg(p, r, 9, 0.9);
  if (r.flip(0.3)) p.cfg["selfsend"] = r.flip(0.5) ? 0 : 100000000;
  int n = int(r.range(1, 8));
  for (int k = 0; k < n; ++k) {
    i64 s = r.range(0, 99999);
    switch (r.below(16)) {
      case 0: p.ops.push_back({"coll", {s}}); break;
      case 1: p.ops.push_back({"string", {s, r.range(0, 8)}}); break;
      case 2: p.ops.push_back({"logic", {s, r.range(0, 4)}}); break;
      case 3: p.ops.push_back({"int128", {s}}); break;
      case 4: p.ops.push_back({"barrier", {}}); break;
      case 5:
      case 6: p.ops.push_back({"graph", {s, r.range(0, 8), r.range(0, 1)}}); break;
      case 7:
      case 8:
      case 9: p.ops.push_back({"dist", {s, r.range(0, 2)}}); break;
      case 10: p.ops.push_back({"owners", {s, r.range(0, 1)}}); break;
      case 11: p.ops.push_back({"varsized", {s}}); break;
      case 12: p.ops.push_back({"linear", {s}}); break;
      case 13: p.ops.push_back({"sendrecv", {s}}); break;
      case 14: p.ops.push_back({r.flip(0.3) ? "dup" : "split", {s, r.range(0, 5), r.range(0, 1)}}); break;
      default: p.ops.push_back({"pop", {}});
    }
  }
  return p;
}
AddScenario d06({"D06", "comm_program", 1, gen_comm, comm_prog,
    {{"nranks", {1, 2, 3, 4}}, {"poison", {0}}, {"selfsend", {0}}}});

// ---- D01: what the primitives return, in the order they return it ----
void comm_det(Program const& p) {
  int n = int(p.get("nranks"));
  std::vector<std::vector<std::string>> log[2];
  for (int pass = 0; pass < 2; ++pass) {
    log[pass].assign(std::size_t(n), {});
    must_run(p, pass == 1, n, pass ? "perturbed schedule" : "in-order schedule", [&](Env& e) {
      int me = e.rank;
      auto rec = [&](char const* what, auto const& a) {
        std::ostringstream o;
        o << what << ':' << std::hexfloat;
        for (int i = 0; i < a.size(); ++i) o << ' ' << +a[i];
        log[pass][std::size_t(me)].push_back(o.str());
      };
      for (auto& op : p.ops) {
        u64 s = mix(u64(op.arg(0)), 43);
        int cnt = int(mix(s, u64(me)) % u64(op.arg(1) + 1));
        auto dest = [&](int i) { return int(mix(s + 1, u64(me) * 100 + u64(i)) % u64(n)); };
        if (op.name == "graph") {
          std::vector<int> dst;
          for (int r = 0; r < n; ++r)
            if (edge(s, me, r, int(op.arg(1)))) dst.push_back(r);
          oh::HostWrite<oh::I32> d(int(dst.size()));
          for (std::size_t i = 0; i < dst.size(); ++i) d[int(i)] = dst[i];
          auto g = e.world->graph(oh::Read<oh::I32>(d.write()));
          rec("graph sources", oh::HostRead<oh::I32>(g->sources()));
          rec("neighbour values", oh::HostRead<oh::Real>(g->allgather(val<oh::Real>(s, u64(me)))));
        } else if (op.name == "plan" || op.name == "planidx") {
          oh::HostWrite<oh::I32> rk(cnt);
          oh::HostWrite<oh::Real> w(cnt);
          oh::HostWrite<oh::LO> ix(cnt);
          for (int i = 0; i < cnt; ++i) rk[i] = dest(i), ix[i] = int(mix(s + 2, u64(me) * 100 + u64(i)) % 5), w[i] = 1.0 / double(1 + mix(s + 3, u64(me) * 100 + u64(i)) % 1000003);
          oh::Dist d;
          auto rr = oh::Read<oh::I32>(rk.write());
          auto ww = oh::Reals(w.write());
          if (op.name == "planidx")
            d = oh::Dist(e.world, oh::Remotes(rr, oh::LOs(ix.write())), 5);
          else
            d.set_parent_comm(e.world), d.set_dest_ranks(rr);
          rec("exchanged values", oh::HostRead<oh::Real>(d.exch(ww, 1)));
          rec("asynchronously exchanged values", oh::HostRead<oh::Real>(d.iexch(ww, 1).get()));
          auto inv = d.invert();
          rec("ranks messages came from", oh::HostRead<oh::I32>(inv.msgs2ranks()));
          if (op.name == "planidx") {
            rec("ranks items came from", oh::HostRead<oh::I32>(inv.items2ranks()));
            rec("sums over arrivals", oh::HostRead<oh::Real>(d.exch_reduce(ww, 1, OMEGA_H_SUM)));
            rec("item order", oh::HostRead<oh::LO>(inv.items2content()));
          }
        } else if (op.name == "owners") {
          oh::HostWrite<oh::GO> gl(cnt);
          std::set<i64> used;
          int k = 0;
          for (int i = 0; i < cnt; ++i) {
            i64 g = i64(mix(s + 4, u64(me) * 100 + u64(i)) % 12);
            if (used.insert(g).second) gl[k++] = g;
          }
          oh::HostWrite<oh::GO> g2(k);
          for (int i = 0; i < k; ++i) g2[i] = gl[i];
          auto rem = oh::owners_from_globals(e.world, oh::GOs(g2.write()), oh::Read<oh::I32>());
          rec("owner ranks", oh::HostRead<oh::I32>(rem.ranks));
          rec("owner indices", oh::HostRead<oh::LO>(rem.idxs));
        }
      }
    });
  }
  for (std::size_t r = 0; r < std::size_t(n); ++r)
    for (std::size_t k = 0; k < log[0][r].size(); ++k)
      if (log[0][r][k] != log[1][r][k])
        violate("schedule-dependent", "two schedules give rank " + std::to_string(r) + " different results: " + log[0][r][k] + " and " + log[1][r][k]);
}
AddScenario d01c({"D01", "schedule_comm", 2,
    [](Rng& r, u64) {
      Program p;
      common_cfg(p, r, 9, 1.0);
      if (p.cfg["nranks"] < 3) p.cfg["nranks"] = r.range(3, 9);
      int n = int(r.range(1, 5));
      for (int k = 0; k < n; ++k) {
        i64 s = r.range(0, 99999);
        switch (r.below(5)) {
          case 0: p.ops.push_back({"graph", {s, r.range(1, 8)}}); break;
          case 1:
          case 2: p.ops.push_back({"plan", {s, r.range(1, 9)}}); break;
          case 3: p.ops.push_back({"planidx", {s, r.range(1, 9)}}); break;
          default: p.ops.push_back({"owners", {s, r.range(1, 9)}});
        }
      }
      return p;
    },
    comm_det, {{"nranks", {2, 3, 4}}, {"poison", {0}}}});

// ---- D07: non-blocking exchanges ----
struct Pending {
  u64 s;
  int width, comm;
  std::vector<int> src;
  std::vector<int> ro;
  bool from_dist = false;
  bool seen_done = false;
  oh::Future<oh::I64> f;
};
void future_prog(Program const& p) {
  must_run(p, true, int(p.get("nranks")), "non-blocking exchanges", [&](Env& e) {
    int n = e.world->size(), me = e.rank;
    std::vector<oh::CommPtr> graphs;
    std::vector<u64> gseed;
    std::vector<int> gdens;
    std::vector<Pending> out;
    auto finish = [&](Pending& q) {
      auto got = oh::HostRead<oh::I64>(q.f.get());
      if (got.size() != q.ro.back() * q.width) violate("future-result", "a non-blocking exchange returned the wrong number of values");
      for (std::size_t i = 0; i < q.src.size(); ++i)
        for (int k = q.ro[i] * q.width, j = 0; k < q.ro[i + 1] * q.width; ++k, ++j)
          if (got[k] != val<oh::I64>(q.s + u64(j), u64(q.src[i]), u64(me)))
            violate("future-result", std::string("a non-blocking exchange returned wrong data on rank ") + std::to_string(me) +
                                         (q.seen_done ? " after reporting completion" : ""));
      bool threw = false;
      try {
        q.f.get();
      } catch (std::exception const&) {
        threw = true;
      }
      if (!threw) violate("future-result", "the result of a non-blocking exchange could be taken twice");
    };
    for (auto& op : p.ops) {
      u64 s = mix(u64(op.arg(0)), 29);
      if (op.name == "graph") {
        int dens = int(op.arg(1));
        std::vector<int> dst;
        for (int r = 0; r < n; ++r)
          if (edge(s, me, r, dens)) dst.push_back(r);
        oh::HostWrite<oh::I32> d(int(dst.size()));
        for (std::size_t i = 0; i < dst.size(); ++i) d[int(i)] = dst[i];
        graphs.push_back(e.world->graph(oh::Read<oh::I32>(d.write())));
        gseed.push_back(s);
        gdens.push_back(dens);
      } else if (op.name == "post") {
        if (graphs.empty()) continue;
        std::size_t g = std::size_t(op.arg(1)) % graphs.size();
        u64 gs = gseed[g];
        int gd = gdens[g];
        Pending q{s, 1 + int(mix(s, 5) % 3), int(g), {}, {0}, false, false, oh::Future<oh::I64>(oh::Read<oh::I64>())};
        std::vector<int> dst;
        for (int r = 0; r < n; ++r) {
          if (edge(gs, r, me, gd)) q.src.push_back(r);
          if (edge(gs, me, r, gd)) dst.push_back(r);
        }
        auto count = [&](int a, int b) { return 1 + int(mix(mix(s, u64(a) + 7), u64(b)) % 5); };
        oh::HostWrite<oh::LO> so(int(dst.size()) + 1), ro(int(q.src.size()) + 1);
        so[0] = ro[0] = 0;
        for (std::size_t i = 0; i < dst.size(); ++i) so[int(i) + 1] = so[int(i)] + count(me, dst[i]);
        for (std::size_t i = 0; i < q.src.size(); ++i) ro[int(i) + 1] = ro[int(i)] + count(q.src[i], me), q.ro.push_back(ro[int(i) + 1]);
        oh::HostWrite<oh::I64> w(so[int(dst.size())] * q.width);
        for (std::size_t i = 0; i < dst.size(); ++i)
          for (int k = so[int(i)] * q.width, j = 0; k < so[int(i) + 1] * q.width; ++k, ++j) w[k] = val<oh::I64>(s + u64(j), u64(me), u64(dst[i]));
        q.f = graphs[g]->ialltoallv(oh::Read<oh::I64>(w.write()), oh::LOs(so.write()), oh::LOs(ro.write()), q.width);
        out.push_back(q);
      } else if (op.name == "idist") {
        // through an exchange plan that is gone before the result is taken
        auto gs = s;
        int items = 1 + int(mix(s, 3) % 4), dw = 1 + int(mix(s, 4) % 3);
        auto dest = [&](int r, int i) { return int(mix(mix(gs, u64(r)), u64(i)) % u64(n)); };
        // item i of rank r goes to rank dest, all ranks have `items` items; roots = arrival order by global
        std::vector<std::pair<i64, std::pair<int, int>>> arr;
        for (int r = 0; r < n; ++r)
          for (int i = 0; i < items; ++i)
            if (dest(r, i) == me) arr.push_back({i64(mix(s + 5, u64(r) * 64 + u64(i)) >> 1), {r, i}});
        std::sort(arr.begin(), arr.end());
        Pending q{s, 1, -1, {}, {0}, true, false, oh::Future<oh::I64>(oh::Read<oh::I64>())};
        {
          oh::HostWrite<oh::I32> rk(items);
          oh::HostWrite<oh::GO> gl(items);
          oh::HostWrite<oh::I64> w(items * dw);
          for (int i = 0; i < items; ++i) {
            rk[i] = dest(me, i), gl[i] = i64(mix(s + 5, u64(me) * 64 + u64(i)) >> 1);
            for (int c = 0; c < dw; ++c) w[i * dw + c] = val<oh::I64>(s + u64(c), u64(me), u64(i));
          }
          auto d = std::unique_ptr<oh::Dist>(new oh::Dist);
          d->set_parent_comm(e.world);
          d->set_dest_ranks(oh::Read<oh::I32>(rk.write()));
          d->set_dest_globals(oh::GOs(gl.write()));
          q.f = d->iexch(oh::Read<oh::I64>(w.write()), dw);
          graphs.push_back(d->comm());  // keep the communicator; the plan itself goes away
          gseed.push_back(0);
          gdens.push_back(0);
          if (op.arg(1)) d->set_dest_ranks(oh::Read<oh::I32>(items, 0)), graphs.back() = graphs.back();
        }
        auto take = [&]() {
          auto got = oh::HostRead<oh::I64>(q.f.get());
          if (got.size() != int(arr.size()) * dw) violate("future-result", "a non-blocking plan exchange returned the wrong number of values");
          for (std::size_t k = 0; k < arr.size() * std::size_t(dw); ++k)
            if (got[int(k)] != val<oh::I64>(s + k % std::size_t(dw), u64(arr[k / std::size_t(dw)].second.first), u64(arr[k / std::size_t(dw)].second.second)))
              violate("future-result", "a non-blocking plan exchange returned wrong data on rank " + std::to_string(me));
        };
        int polls = int(mix(s, 11) % 6);
        for (int k = 0; k < polls; ++k)
          if (q.f.completed()) break;
        take();
        graphs.pop_back(), gseed.pop_back(), gdens.pop_back();
      } else if (op.name == "poll") {
        for (auto& q : out) {
          if (q.seen_done && !q.f.completed()) violate("future-result", "a completed exchange later reports that it is pending");
          if (q.f.completed()) q.seen_done = true;
        }
      } else if (op.name == "spin") {
        // progress: polling alone completes every exchange. A bound far above
        // what deliveries need; every rank has posted the same exchanges by now.
        for (auto& q : out) {
          int k = 0;
          while (!q.f.completed())
            if (++k > 200000) violate("future-progress", "polling never completes an exchange all ranks have posted");
          q.seen_done = true;
        }
      } else if (op.name == "take") {
        if (out.empty()) continue;
        std::size_t k = std::size_t(op.arg(1)) % out.size();
        if (op.arg(2)) k = std::size_t(mix(s, u64(me)) % out.size());  // each rank takes results in its own order
        finish(out[k]);
        out.erase(out.begin() + long(k));
      } else if (op.name == "sum") {
        auto got = e.world->allreduce(oh::I64(me + 1), OMEGA_H_SUM);
        if (got != i64(n) * (n + 1) / 2) violate("future-result", "a reduction between pending exchanges is wrong");
      }
    }
    while (!out.empty()) finish(out.back()), out.pop_back();
  });
}
Program gen_future(Rng& r, u64) {
  Program p;
  common_cfg(p, r, 7, 0.95);
  p.ops.push_back({"graph", {r.range(0, 99999), r.range(1, 8)}});
  int n = int(r.range(2, 12));
  for (int k = 0; k < n; ++k) {
    i64 s = r.range(0, 99999);
    switch (r.below(10)) {
      case 0: p.ops.push_back({"graph", {s, r.range(0, 8)}}); break;
      case 1:
      case 2:
      case 3: p.ops.push_back({"post", {s, r.range(0, 3)}}); break;
      case 4: p.ops.push_back({"idist", {s, r.range(0, 1)}}); break;
      case 5:
      case 6: p.ops.push_back({"poll", {}}); break;
      case 7: p.ops.push_back({"take", {s, r.range(0, 5), r.range(0, 1)}}); break;
      case 8: p.ops.push_back({"sum", {}}); break;
      default: p.ops.push_back({"spin", {}});
    }
  }
  return p;
}
AddScenario d07({"D07", "futures", 5, gen_future, future_prog, {{"nranks", {1, 2, 3, 4}}, {"poison", {0}}}});
}  // namespace
