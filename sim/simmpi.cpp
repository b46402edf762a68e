// Simulated MPI on top of the deterministic scheduler.
#include <mpi.h>
#include <algorithm>
#include <climits>
#include "world.hpp"

namespace sim {

enum class Kind { send, recv, coll };
struct Coll;
struct Req {
  Kind kind = Kind::send;
  int owner = 0;
  bool done = false;
  bool freed = false;
  // send
  Msg* msg = nullptr;
  // recv
  char* buf = nullptr;
  std::size_t cap = 0;
  int src = 0, tag = 0, ctx = 0;
  bool late = false;
  std::vector<char> saved;  // buffer contents at the post
  std::vector<char> data;
  int st_source = 0, st_tag = 0, st_src_comm_rank = 0;
  std::size_t st_bytes = 0;
  // coll
  Coll* coll = nullptr;
  int spurious = 0;
};
struct Msg {
  int ctx, src, dst, tag;  // comm ranks
  int wsrc, wdst;          // world ranks
  std::vector<char> data;
  char const* live = nullptr;
  Req* sreq = nullptr;
  u64 seq = 0;
};
struct Coll {
  std::string sig;
  bool early = false;
  int arrived = 0, left = 0;
  std::vector<char> here;
  std::vector<std::vector<char>> contrib;
  std::vector<std::vector<char>> per_rank;  // results, computed once complete
  std::vector<int> a, b;
  std::vector<u32> perm;
  bool computed = false;
  std::vector<CommShared*> out;
  std::vector<int> out_rank;
};
struct CommShared {
  int ctx;
  std::vector<int> members;  // world ranks
  std::map<u64, std::unique_ptr<Coll>> colls;
};

static World& W() {
  if (!world || world->cur < 0) harness_error("MPI called outside a simulated rank");
  return *world;
}
static Rank& R() { return *W().ranks[std::size_t(W().cur)]; }

static std::size_t tsize(MPI_Datatype t) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE:
    case MPI_PACKED: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL:
    case MPI_CXX_BOOL:
      return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T:
      return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T:
    case MPI_UINT32_T:
      return 4;
    case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG:
    case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T:
    case MPI_UINT64_T: case MPI_AINT:
      return 8;
    case MPI_LONG_DOUBLE:
      return 16;
  }
  violate("mpi-error", "invalid datatype " + std::to_string(t));
}

static CommLocal& C(MPI_Comm c, char const* fn) {
  auto& rk = R();
  if (!rk.inited || rk.finalized)
    violate("mpi-error", std::string(fn) + " called outside MPI_Init/MPI_Finalize");
  if (c <= 0 || std::size_t(c) >= rk.comms.size() || !rk.comms[std::size_t(c)].live)
    violate("mpi-error", std::string(fn) + " on an invalid communicator, rank " + std::to_string(rk.id));
  return rk.comms[std::size_t(c)];
}

static CommShared* new_comm(World& w, std::vector<int> members) {
  auto s = std::make_shared<CommShared>();
  s->ctx = int(w.comms.size());
  s->members = std::move(members);
  w.comms.push_back(std::move(s));
  return w.comms.back().get();
}
static MPI_Comm add_local(Rank& rk, CommShared* sh, int myrank) {
  CommLocal l;
  l.sh = sh;
  l.rank = myrank;
  l.live = true;
  rk.comms.push_back(l);
  return MPI_Comm(rk.comms.size() - 1);
}

void mpi_world_init(World& w, int n) {
  std::vector<int> all;
  for (int i = 0; i < n; ++i) all.push_back(i);
  new_comm(w, all);
  for (int i = 0; i < n; ++i) new_comm(w, {i});
}
void mpi_rank_init(Rank& rk, int) {
  rk.comms.clear();
  rk.comms.emplace_back();  // MPI_COMM_NULL
  rk.comms.emplace_back();
  rk.comms.emplace_back();
  rk.reqs.assign(1, nullptr);
}

// ---- network ----
static int channel(World& w, Msg const& m) {
  std::vector<int> key{m.ctx, m.wsrc, m.wdst, m.tag};
  auto it = w.chan_index.find(key);
  if (it != w.chan_index.end()) return it->second;
  Channel c{m.ctx, m.wsrc, m.wdst, m.tag, {}, 1.0};
  if (w.cfg.policy.mode == 4) c.weight = (mix(u64(m.wsrc) * 64 + u64(m.wdst), w.cfg.policy.rank_w.size()) % 3) ? 1.0 : 0.02;
  w.chans.push_back(std::move(c));
  int id = int(w.chans.size()) - 1;
  w.chan_index[key] = id;
  return id;
}
void mpi_deliverable(World& w, std::vector<int>& acts) {
  // channels with messages in flight, oldest head first
  std::size_t k = 0;
  for (std::size_t i = 0; i < w.active.size(); ++i)
    if (!w.chans[std::size_t(w.active[i])].q.empty()) w.active[k++] = w.active[i];
  w.active.resize(k);
  for (int c : w.active) acts.push_back(c);
  std::sort(acts.begin(), acts.end(), [&](int a, int b) {
    return w.chans[std::size_t(a)].q.front()->seq < w.chans[std::size_t(b)].q.front()->seq;
  });
}
double mpi_link_weight(World& w, int c) { return w.chans[std::size_t(c)].weight; }
u64 mpi_chan_id(World& w, int c) {
  auto& ch = w.chans[std::size_t(c)];
  return mix(u64(ch.src) * 1000 + u64(ch.dst), u64(ch.tag) * 7 + 3);
}

static void put_data(Req* r) {
  // restore what lay beyond the message, then write the message
  if (!r->saved.empty()) std::memcpy(r->buf, r->saved.data(), r->saved.size());
  if (!r->data.empty()) std::memcpy(r->buf, r->data.data(), r->data.size());
  r->saved.clear();
}
static bool matches(Req const* r, Msg const* m) {
  return r->ctx == m->ctx && (r->src == MPI_ANY_SOURCE || r->src == m->src) &&
         (r->tag == MPI_ANY_TAG || r->tag == m->tag);
}
static void match(Req* r, Msg* m) {
  if (m->sreq) {
    if (!m->data.empty() && std::memcmp(m->live, m->data.data(), m->data.size()) != 0)
      violate("send-buffer-modified",
          "rank " + std::to_string(m->wsrc) + " changed or released the buffer of a message to rank " +
              std::to_string(m->wdst) + " before the send completed");
    m->sreq->done = true;
    m->sreq->msg = nullptr;
  }
  if (m->data.size() > r->cap)
    violate("mpi-error", "message of " + std::to_string(m->data.size()) + " bytes from rank " +
                             std::to_string(m->wsrc) + " truncated: rank " + std::to_string(m->wdst) +
                             " posted " + std::to_string(r->cap));
  r->data.swap(m->data);
  r->st_source = m->src;
  r->st_tag = m->tag;
  r->st_bytes = r->data.size();
  r->done = true;
  if (!r->late) put_data(r);
  delete m;
}
void mpi_deliver(World& w, int c) {
  auto& ch = w.chans[std::size_t(c)];
  Msg* m = ch.q.front();
  ch.q.pop_front();
  auto& rk = *w.ranks[std::size_t(m->wdst)];
  for (auto it = rk.posted.begin(); it != rk.posted.end(); ++it)
    if (matches(*it, m)) {
      Req* r = *it;
      rk.posted.erase(it);
      match(r, m);
      return;
    }
  rk.unexpected.push_back(m);
}
void mpi_check_clean(World& w) {
  for (auto& ch : w.chans)
    if (!ch.q.empty())
      violate("leftover-message", "a message from rank " + std::to_string(ch.src) + " to rank " +
                                      std::to_string(ch.dst) + " was never received");
  for (auto& rk : w.ranks) {
    if (!rk->unexpected.empty())
      violate("leftover-message", "rank " + std::to_string(rk->id) + " never received a message from rank " +
                                      std::to_string(rk->unexpected.front()->wsrc));
    if (!rk->posted.empty())
      violate("leftover-receive", "rank " + std::to_string(rk->id) + " posted a receive that never matched");
    for (std::size_t i = 1; i < rk->reqs.size(); ++i)
      if (rk->reqs[i]) violate("leftover-request", "rank " + std::to_string(rk->id) + " never completed a request");
    if (rk->inited && rk->finalized)
      for (std::size_t i = 3; i < rk->comms.size(); ++i)
        if (rk->comms[i].live)
          violate("leaked-communicator", "rank " + std::to_string(rk->id) + " never freed a communicator (handle " + std::to_string(i) + ")");
  }
}

static MPI_Request handle(Req* r) {
  auto& rk = R();
  if (!rk.free_reqs.empty()) {
    u32 h = rk.free_reqs.back();
    rk.free_reqs.pop_back();
    rk.reqs[h] = r;
    return MPI_Request(h);
  }
  rk.reqs.push_back(r);
  return MPI_Request(rk.reqs.size() - 1);
}
static Req* req(MPI_Request h) {
  auto& rk = R();
  if (h <= 0 || std::size_t(h) >= rk.reqs.size() || !rk.reqs[std::size_t(h)])
    violate("mpi-error", "invalid request handle on rank " + std::to_string(rk.id));
  return rk.reqs[std::size_t(h)];
}
static void complete(MPI_Request* h, MPI_Status* st) {
  auto r = req(*h);
  if (r->kind == Kind::recv) {
    if (r->late) {
      put_data(r);
      fault_fired("late_receive_write");
    }
    if (st) {
      st->MPI_SOURCE = r->st_source;
      st->MPI_TAG = r->st_tag;
      st->sim_bytes = int(r->st_bytes);
    }
  }
  if (st) st->MPI_ERROR = MPI_SUCCESS;
  auto& rk = R();
  rk.reqs[std::size_t(*h)] = nullptr;
  rk.free_reqs.push_back(u32(*h));
  delete r;
  *h = MPI_REQUEST_NULL;
}
static void check_rank(CommLocal& c, int r, char const* fn) {
  if (r < 0 || std::size_t(r) >= c.sh->members.size())
    violate("mpi-error", std::string(fn) + ": rank " + std::to_string(r) + " is not in a communicator of " +
                             std::to_string(c.sh->members.size()));
}
static Req* start_send(void const* buf, int count, MPI_Datatype t, int dest, int tag, CommLocal& c, bool sync, char const* fn) {
  check_rank(c, dest, fn);
  if (count < 0 || tag < 0) violate("mpi-error", std::string(fn) + ": negative count or tag");
  auto& w = W();
  auto m = new Msg();
  m->ctx = c.sh->ctx;
  m->src = c.rank;
  m->dst = dest;
  m->tag = tag;
  m->wsrc = R().id;
  m->wdst = c.sh->members[std::size_t(dest)];
  std::size_t n = std::size_t(count) * tsize(t);
  m->data.assign(static_cast<char const*>(buf), static_cast<char const*>(buf) + n);
  m->seq = ++w.msg_seq;
  ++stats.msgs;
  stats.bytes += n;
  auto r = new Req();
  r->kind = Kind::send;
  r->owner = R().id;
  bool rdv = chooser.flip(w.cfg.policy.p_rendezvous);
  if (rdv && !sync) fault_fired("rendezvous_send");
  if (sync || rdv) {
    m->live = static_cast<char const*>(buf);
    m->sreq = r;
    r->msg = m;
  } else {
    r->done = true;
  }
  int ch = channel(w, *m);
  if (w.chans[std::size_t(ch)].q.empty() &&
      std::find(w.active.begin(), w.active.end(), ch) == w.active.end())
    w.active.push_back(ch);
  w.chans[std::size_t(ch)].q.push_back(m);
  return r;
}
static Req* start_recv(void* buf, int count, MPI_Datatype t, int src, int tag, CommLocal& c, char const* fn) {
  if (src != MPI_ANY_SOURCE) check_rank(c, src, fn);
  if (count < 0) violate("mpi-error", std::string(fn) + ": negative count");
  auto& w = W();
  auto r = new Req();
  r->kind = Kind::recv;
  r->owner = R().id;
  r->buf = static_cast<char*>(buf);
  r->cap = std::size_t(count) * tsize(t);
  r->src = src;
  r->tag = tag;
  r->ctx = c.sh->ctx;
  r->late = chooser.flip(w.cfg.policy.p_latewrite);
  // the buffer's contents are undefined until completion
  r->saved.assign(r->buf, r->buf + r->cap);
  for (std::size_t i = 0; i < r->cap; ++i) r->buf[i] = char(0xb7 ^ (i * 29));
  auto& rk = R();
  for (auto it = rk.unexpected.begin(); it != rk.unexpected.end(); ++it)
    if (matches(r, *it)) {
      Msg* m = *it;
      rk.unexpected.erase(it);
      match(r, m);
      return r;
    }
  rk.posted.push_back(r);
  return r;
}

// ---- collectives ----
static Coll& enter(CommLocal& c, std::string const& sig, Req* = nullptr) {
  auto& w = W();
  u64 seq = c.coll_seq++;
  auto& slot = c.sh->colls[seq];
  if (!slot) {
    slot = std::make_unique<Coll>();
    slot->sig = sig;
    std::size_t n = c.sh->members.size();
    slot->here.assign(n, 0);
    slot->contrib.resize(n);
    slot->a.assign(n, 0);
    slot->b.assign(n, 0);
    slot->early = n > 1 && chooser.flip(w.cfg.policy.p_coll_early);
    slot->perm.resize(n);
    for (u32 i = 0; i < n; ++i) slot->perm[i] = i;
    if (n > 1 && chooser.flip(w.cfg.policy.p_reduce_perm)) {
      for (u32 i = u32(n); i > 1; --i) {
        u32 j = chooser.pick(i);
        std::swap(slot->perm[i - 1], slot->perm[i - 1 - j]);
      }
      fault_fired("reduction_reordered");
    }
    ++stats.colls;
  } else if (slot->sig != sig) {
    violate("collective-mismatch", "rank " + std::to_string(R().id) + " called " + sig +
                                       " while another rank called " + slot->sig);
  }
  slot->here[std::size_t(c.rank)] = 1;
  ++slot->arrived;
  return *slot;
}
static void leave(CommLocal& c, u64 seq) {
  auto it = c.sh->colls.find(seq);
  if (++it->second->left == int(c.sh->members.size())) c.sh->colls.erase(it);
}
static void wait_all(CommLocal& c, Coll& k, char const* fn) {
  int n = int(c.sh->members.size());
  block_until([&k, n]() { return k.arrived == n; }, std::string("in ") + fn);
}
static void wait_for(CommLocal& c, Coll& k, int r, char const* fn) {
  if (!k.early) return wait_all(c, k, fn);
  if (r != c.rank) fault_fired("early_collective_exit");
  block_until([&k, r]() { return k.here[std::size_t(r)] != 0; }, std::string("in ") + fn);
}

template <class T>
static void apply_t(char* inout, char const* in, int n, MPI_Op op) {
  for (int i = 0; i < n; ++i) {
    T a, b;
    std::memcpy(&a, inout + std::size_t(i) * sizeof(T), sizeof(T));
    std::memcpy(&b, in + std::size_t(i) * sizeof(T), sizeof(T));
    switch (op) {
      case MPI_SUM: a = T(a + b); break;
      case MPI_MIN: a = b < a ? b : a; break;
      case MPI_MAX: a = a < b ? b : a; break;
      case MPI_PROD: a = T(a * b); break;
      case MPI_LAND: a = T(a && b); break;
      case MPI_LOR: a = T(a || b); break;
      default: violate("mpi-error", "unsupported reduction operation");
    }
    std::memcpy(inout + std::size_t(i) * sizeof(T), &a, sizeof(T));
  }
}
template <class T>
static void apply_bits(char* inout, char const* in, int n, MPI_Op op) {
  if (op != MPI_BAND && op != MPI_BOR && op != MPI_BXOR) return apply_t<T>(inout, in, n, op);
  for (int i = 0; i < n; ++i) {
    T a, b;
    std::memcpy(&a, inout + std::size_t(i) * sizeof(T), sizeof(T));
    std::memcpy(&b, in + std::size_t(i) * sizeof(T), sizeof(T));
    a = op == MPI_BAND ? T(a & b) : op == MPI_BOR ? T(a | b) : T(a ^ b);
    std::memcpy(inout + std::size_t(i) * sizeof(T), &a, sizeof(T));
  }
}
static void apply(char* inout, char const* in, int count, MPI_Datatype t, MPI_Op op) {
  if (op >= 100) {
    auto fn = reinterpret_cast<MPI_User_function*>(R().ops[std::size_t(op - 100)].first);
    if (!fn) violate("mpi-error", "reduction with a freed operation");
    std::vector<char> tmp(in, in + std::size_t(count) * tsize(t));
    // 16-byte alignment for the user function's operands
    alignas(16) char abuf[256], bbuf[256];
    std::size_t nb = tmp.size();
    if (nb > sizeof(abuf)) harness_error("user reduction too large");
    std::memcpy(abuf, in, nb);
    std::memcpy(bbuf, inout, nb);
    fn(abuf, bbuf, &count, &t);
    std::memcpy(inout, bbuf, nb);
    return;
  }
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: return apply_bits<signed char>(inout, in, count, op);
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL:
      return apply_bits<unsigned char>(inout, in, count, op);
    case MPI_SHORT: case MPI_INT16_T: return apply_bits<std::int16_t>(inout, in, count, op);
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: return apply_bits<std::uint16_t>(inout, in, count, op);
    case MPI_INT: case MPI_INT32_T: return apply_bits<std::int32_t>(inout, in, count, op);
    case MPI_UNSIGNED: case MPI_UINT32_T: return apply_bits<std::uint32_t>(inout, in, count, op);
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT:
      return apply_bits<std::int64_t>(inout, in, count, op);
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T:
      return apply_bits<std::uint64_t>(inout, in, count, op);
    case MPI_FLOAT: return apply_t<float>(inout, in, count, op);
    case MPI_DOUBLE: return apply_t<double>(inout, in, count, op);
    case MPI_LONG_DOUBLE: return apply_t<long double>(inout, in, count, op);
  }
  violate("mpi-error", "reduction on an unsupported datatype");
}
static std::vector<char> reduce_range(Coll& k, int lo, int hi, int count, MPI_Datatype t, MPI_Op op) {
  // combine contributions of comm ranks [lo,hi) in this collective's order
  bool commute = op < 100 || R().ops[std::size_t(op - 100)].second;
  std::vector<u32> order;
  for (u32 p : k.perm)
    if (int(p) >= lo && int(p) < hi) order.push_back(p);
  if (!commute) std::sort(order.begin(), order.end());
  std::vector<char> acc = k.contrib[order[0]];
  for (std::size_t i = 1; i < order.size(); ++i) {
    // user op semantics: inout = in op inout with `in` from the lower rank
    if (commute) {
      apply(acc.data(), k.contrib[order[i]].data(), count, t, op);
    } else {
      std::vector<char> rhs = k.contrib[order[i]];
      apply(rhs.data(), acc.data(), count, t, op);
      acc = rhs;
    }
  }
  return acc;
}
static std::string sigs(char const* n, int count, MPI_Datatype t, int x, int y = 0) {
  std::size_t b = std::size_t(count) * tsize(t);
  return std::string(n) + "(bytes=" + std::to_string(b) + ",op=" + std::to_string(x) + ",root=" + std::to_string(y) + ")";
}
}  // namespace sim

using namespace sim;

extern "C" {
int MPI_Init(int*, char***) {
  auto& rk = R();
  if (rk.inited) violate("mpi-error", "MPI_Init called twice");
  rk.inited = true;
  auto& w = W();
  CommLocal l;
  l.sh = w.comms[0].get();
  l.rank = rk.id;
  l.live = true;
  rk.comms[MPI_COMM_WORLD] = l;
  l.sh = w.comms[std::size_t(1 + rk.id)].get();
  l.rank = 0;
  rk.comms[MPI_COMM_SELF] = l;
  yield_point();
  return MPI_SUCCESS;
}
int MPI_Init_thread(int* a, char*** b, int, int* p) {
  if (p) *p = MPI_THREAD_SERIALIZED;
  return MPI_Init(a, b);
}
int MPI_Initialized(int* f) {
  *f = R().inited;
  return MPI_SUCCESS;
}
int MPI_Finalized(int* f) {
  *f = R().finalized;
  return MPI_SUCCESS;
}
int MPI_Finalize(void) {
  auto& c = C(MPI_COMM_WORLD, "MPI_Finalize");
  u64 seq = c.coll_seq;
  auto& k = enter(c, "MPI_Finalize");
  wait_all(c, k, "MPI_Finalize");
  leave(c, seq);
  R().finalized = true;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) {
  auto& w = W();
  w.failed = true;
  w.fail_rank = w.cur;
  w.what = "MPI_Abort " + std::to_string(code);
  w.park();
  return MPI_SUCCESS;
}
double MPI_Wtime(void) { return double(clock_us()) * 1e-6; }
int MPI_Get_processor_name(char* n, int* l) {
  std::strcpy(n, "simnode");
  *l = 7;
  return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm c, int* r) {
  *r = C(c, "MPI_Comm_rank").rank;
  return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int* s) {
  *s = int(C(c, "MPI_Comm_size").sh->members.size());
  return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm h, MPI_Comm* out) {
  u64 seq;
  CommShared* sh;
  int me;
  Coll* k;
  {
    auto& c = C(h, "MPI_Comm_dup");
    seq = c.coll_seq;
    sh = c.sh;
    me = c.rank;
    k = &enter(c, "MPI_Comm_dup");
    wait_all(c, *k, "MPI_Comm_dup");
  }
  if (k->out.empty()) k->out.push_back(new_comm(W(), sh->members));
  auto n = k->out[0];
  leave(R().comms[std::size_t(h)], seq);
  *out = add_local(R(), n, me);
  return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm h, int color, int key, MPI_Comm* out) {
  Coll* k;
  u64 seq;
  int me;
  CommShared* sh;
  {
    auto& c = C(h, "MPI_Comm_split");
    seq = c.coll_seq;
    sh = c.sh;
    me = c.rank;
    k = &enter(c, "MPI_Comm_split");
    k->a[std::size_t(me)] = color;
    k->b[std::size_t(me)] = key;
    wait_all(c, *k, "MPI_Comm_split");
  }
  int n = int(sh->members.size());
  if (!k->computed) {
    k->computed = true;
    k->out.assign(std::size_t(n), nullptr);
    k->out_rank.assign(std::size_t(n), -1);
    std::set<int> colors(k->a.begin(), k->a.end());
    for (int col : colors) {
      if (col == MPI_UNDEFINED) continue;
      if (col < 0) violate("mpi-error", "MPI_Comm_split with a negative color");
      std::vector<int> v;
      for (int i = 0; i < n; ++i)
        if (k->a[std::size_t(i)] == col) v.push_back(i);
      std::stable_sort(v.begin(), v.end(), [&](int x, int y) { return k->b[std::size_t(x)] < k->b[std::size_t(y)]; });
      std::vector<int> mem;
      for (int i : v) mem.push_back(sh->members[std::size_t(i)]);
      auto nc = new_comm(W(), mem);
      for (std::size_t i = 0; i < v.size(); ++i) {
        k->out[std::size_t(v[i])] = nc;
        k->out_rank[std::size_t(v[i])] = int(i);
      }
    }
  }
  auto nc = k->out[std::size_t(me)];
  int nr = k->out_rank[std::size_t(me)];
  leave(R().comms[std::size_t(h)], seq);
  *out = nc ? add_local(R(), nc, nr) : MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_split_type(MPI_Comm h, int, int key, MPI_Info, MPI_Comm* out) { return MPI_Comm_split(h, 0, key, out); }
int MPI_Comm_free(MPI_Comm* h) {
  auto& c = C(*h, "MPI_Comm_free");
  if (*h <= MPI_COMM_SELF) violate("mpi-error", "MPI_Comm_free of a predefined communicator");
  c.live = false;
  *h = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int* s) {
  *s = int(tsize(t));
  return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) {
  *n = s->sim_bytes / int(tsize(t));
  return MPI_SUCCESS;
}
int MPI_Op_create(MPI_User_function* f, int commute, MPI_Op* op) {
  auto& rk = R();
  rk.ops.push_back({reinterpret_cast<void*>(f), commute});
  *op = MPI_Op(100 + rk.ops.size() - 1);
  return MPI_SUCCESS;
}
int MPI_Op_free(MPI_Op* op) {
  auto& rk = R();
  if (*op < 100 || std::size_t(*op - 100) >= rk.ops.size()) violate("mpi-error", "MPI_Op_free of an invalid operation");
  *op = MPI_OP_NULL;
  return MPI_SUCCESS;
}

int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request* r) {
  yield_point();
  auto& c = C(h, "MPI_Isend");
  *r = handle(start_send(b, n, t, d, tag, c, false, "MPI_Isend"));
  return MPI_SUCCESS;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request* r) {
  yield_point();
  auto& c = C(h, "MPI_Issend");
  *r = handle(start_send(b, n, t, d, tag, c, true, "MPI_Issend"));
  return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Request* r) {
  yield_point();
  auto& c = C(h, "MPI_Irecv");
  *r = handle(start_recv(b, n, t, s, tag, c, "MPI_Irecv"));
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* h, MPI_Status* st) {
  yield_point();
  if (*h == MPI_REQUEST_NULL) return MPI_SUCCESS;
  auto r = req(*h);
  block_until([r]() { return r->done; }, r->kind == Kind::recv ? "waiting for a message" : "waiting for a send");
  complete(h, st);
  return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* h, MPI_Status* st) {
  yield_point();
  std::vector<Req*> rs;
  for (int i = 0; i < n; ++i)
    if (h[i] != MPI_REQUEST_NULL) rs.push_back(req(h[i]));
  block_until(
      [&rs]() {
        for (auto r : rs)
          if (!r->done) return false;
        return true;
      },
      "in MPI_Waitall");
  for (int i = 0; i < n; ++i)
    if (h[i] != MPI_REQUEST_NULL) complete(h + i, st ? st + i : nullptr);
  return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* h, int* idx, MPI_Status* st) {
  yield_point();
  std::vector<Req*> rs(std::size_t(n), nullptr);
  bool any = false;
  for (int i = 0; i < n; ++i)
    if (h[i] != MPI_REQUEST_NULL) rs[std::size_t(i)] = req(h[i]), any = true;
  if (!any) {
    *idx = MPI_UNDEFINED;
    return MPI_SUCCESS;
  }
  block_until(
      [&rs]() {
        for (auto r : rs)
          if (r && r->done) return true;
        return false;
      },
      "in MPI_Waitany");
  std::vector<int> ready;
  for (int i = 0; i < n; ++i)
    if (rs[std::size_t(i)] && rs[std::size_t(i)]->done) ready.push_back(i);
  *idx = ready[chooser.pick(u32(ready.size()))];
  complete(h + *idx, st);
  return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* h, int* flag, MPI_Status* st) {
  yield_point();
  *flag = 1;
  int spur = 0;
  for (int i = 0; i < n; ++i)
    if (h[i] != MPI_REQUEST_NULL) {
      auto r = req(h[i]);
      if (!r->done) *flag = 0;
      spur = std::max(spur, ++r->spurious);
    }
  if (*flag && n > 0 && spur > 0 && spur < 20 && chooser.flip(W().cfg.policy.p_test_false)) {
    *flag = 0;
    fault_fired("test_not_yet");
  }
  if (*flag)
    for (int i = 0; i < n; ++i)
      if (h[i] != MPI_REQUEST_NULL) complete(h + i, st ? st + i : nullptr);
  return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* h, int* flag, MPI_Status* st) { return MPI_Testall(1, h, flag, st); }
int MPI_Testany(int n, MPI_Request* h, int* idx, int* flag, MPI_Status* st) {
  yield_point();
  *flag = 0;
  *idx = MPI_UNDEFINED;
  bool any = false;
  for (int i = 0; i < n; ++i)
    if (h[i] != MPI_REQUEST_NULL) {
      any = true;
      if (req(h[i])->done && !*flag) {
        *flag = 1;
        *idx = i;
        complete(h + i, st);
      }
    }
  if (!any) *flag = 1;
  return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request*) { violate("mpi-error", "MPI_Request_free is not simulated"); }
int MPI_Cancel(MPI_Request*) { violate("mpi-error", "MPI_Cancel is not simulated"); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) {
  MPI_Request r;
  MPI_Isend(b, n, t, d, tag, h, &r);
  return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h) {
  MPI_Request r;
  MPI_Issend(b, n, t, d, tag, h, &r);
  return MPI_Wait(&r, MPI_STATUS_IGNORE);
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Status* st) {
  MPI_Request r;
  MPI_Irecv(b, n, t, s, tag, h, &r);
  return MPI_Wait(&r, st);
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s,
    int rtag, MPI_Comm h, MPI_Status* status) {
  MPI_Request r[2];
  MPI_Isend(sb, sn, st, d, stag, h, r);
  MPI_Irecv(rb, rn, rt, s, rtag, h, r + 1);
  MPI_Wait(r, MPI_STATUS_IGNORE);
  return MPI_Wait(r + 1, status);
}
int MPI_Iprobe(int src, int tag, MPI_Comm h, int* flag, MPI_Status* st) {
  yield_point();
  auto& c = C(h, "MPI_Iprobe");
  auto& rk = R();
  std::vector<Msg*> cand;  // first matching message of every source
  std::set<int> seen;
  for (auto m : rk.unexpected)
    if (m->ctx == c.sh->ctx && (src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag))
      if (seen.insert(m->src).second) cand.push_back(m);
  *flag = 0;
  if (cand.empty()) return MPI_SUCCESS;
  if (rk.probe_misses < 12 && chooser.flip(W().cfg.policy.p_test_false)) {
    ++rk.probe_misses;  // bounds consecutive refusals
    fault_fired("probe_not_yet");
    return MPI_SUCCESS;
  }
  rk.probe_misses = 0;
  auto m = cand[chooser.pick(u32(cand.size()))];
  if (cand.size() > 1) probe("any_source_choice");
  *flag = 1;
  if (st) {
    st->MPI_SOURCE = m->src;
    st->MPI_TAG = m->tag;
    st->sim_bytes = int(m->data.size());
    st->MPI_ERROR = MPI_SUCCESS;
  }
  return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm h, MPI_Status* st) {
  int flag = 0;
  while (!flag) MPI_Iprobe(src, tag, h, &flag, st);
  return MPI_SUCCESS;
}

int MPI_Barrier(MPI_Comm h) {
  yield_point();
  auto& c = C(h, "MPI_Barrier");
  u64 seq = c.coll_seq;
  auto& k = enter(c, "MPI_Barrier");
  wait_all(c, k, "MPI_Barrier");
  leave(R().comms[std::size_t(h)], seq);
  return MPI_SUCCESS;
}
int MPI_Ibarrier(MPI_Comm h, MPI_Request* out) {
  yield_point();
  auto& c = C(h, "MPI_Ibarrier");
  auto& k = enter(c, "MPI_Ibarrier");
  auto r = new Req();
  r->kind = Kind::coll;
  r->owner = R().id;
  r->coll = &k;
  *out = handle(r);
  k.out_rank.push_back(*out);
  // remember participants; completed by the last arriver
  static_assert(sizeof(int) == 4, "");
  k.a[std::size_t(c.rank)] = *out;
  if (k.arrived == int(c.sh->members.size())) {
    auto& w = W();
    for (std::size_t i = 0; i < c.sh->members.size(); ++i) {
      auto& rk = *w.ranks[std::size_t(c.sh->members[i])];
      rk.reqs[std::size_t(k.a[i])]->done = true;
      rk.reqs[std::size_t(k.a[i])]->coll = nullptr;
    }
    c.sh->colls.erase(c.coll_seq - 1);
  }
  return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm h) {
  yield_point();
  auto& c = C(h, "MPI_Bcast");
  check_rank(c, root, "MPI_Bcast");
  u64 seq = c.coll_seq;
  std::size_t nb = std::size_t(n) * tsize(t);
  auto& k = enter(c, sigs("MPI_Bcast", n, t, 0, root));
  if (c.rank == root) {
    k.contrib[std::size_t(root)].assign(static_cast<char*>(b), static_cast<char*>(b) + nb);
  } else {
    std::memset(b, 0xb7, nb);
  }
  wait_for(c, k, root, "MPI_Bcast");
  if (R().comms[std::size_t(h)].rank != root && nb) std::memcpy(b, k.contrib[std::size_t(root)].data(), nb);
  leave(R().comms[std::size_t(h)], seq);
  return MPI_SUCCESS;
}
static int allred(char const* fn, const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, int mode, MPI_Comm h) {
  // mode 0 allreduce, 1 reduce, 2 scan, 3 exscan
  yield_point();
  auto& c = C(h, fn);
  u64 seq = c.coll_seq;
  int me = c.rank, np = int(c.sh->members.size());
  std::size_t nb = std::size_t(n) * tsize(t);
  auto& k = enter(c, sigs(fn, n, t, op >= 100 ? 100 : op, root));
  auto src = static_cast<char const*>(s == MPI_IN_PLACE ? r : s);
  k.contrib[std::size_t(me)].assign(src, src + nb);
  if (r && mode != 1) std::memset(r, 0xb7, nb);
  if (mode == 0) {
    wait_all(c, k, fn);
    // one result for all ranks, combined once
    if (!k.computed) {
      k.computed = true;
      k.per_rank.push_back(reduce_range(k, 0, np, n, t, op));
    }
    if (nb) std::memcpy(r, k.per_rank[0].data(), nb);
  } else if (mode == 1) {
    if (me == root) {
      wait_all(c, k, fn);
      auto v = reduce_range(k, 0, np, n, t, op);
      if (nb) std::memcpy(r, v.data(), nb);
    } else {
      wait_for(c, k, me, fn);
    }
  } else {
    if (k.early) {
      fault_fired("early_collective_exit");
      Coll* kp = &k;
      block_until(
          [kp, me]() {
            for (int i = 0; i <= me; ++i)
              if (!kp->here[std::size_t(i)]) return false;
            return true;
          },
          std::string("in ") + fn);
    } else {
      wait_all(c, k, fn);
    }
    int hi = mode == 2 ? me + 1 : me;
    if (hi > 0) {
      auto v = reduce_range(k, 0, hi, n, t, op);
      if (nb) std::memcpy(r, v.data(), nb);
    }
    // rank 0 of an exclusive scan keeps an undefined buffer
  }
  leave(R().comms[std::size_t(h)], seq);
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  return allred("MPI_Allreduce", s, r, n, t, op, 0, 0, h);
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h) {
  return allred("MPI_Reduce", s, r, n, t, op, root, 1, h);
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  return allred("MPI_Scan", s, r, n, t, op, 0, 2, h);
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  return allred("MPI_Exscan", s, r, n, t, op, 0, 3, h);
}
static int gather_impl(char const* fn, const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* disp,
    int each, MPI_Datatype rt, int root, MPI_Comm h) {
  // root < 0: all ranks receive
  yield_point();
  auto& c = C(h, fn);
  u64 seq = c.coll_seq;
  int me = c.rank, np = int(c.sh->members.size());
  auto& k = enter(c, std::string(fn) + "(root=" + std::to_string(root) + ")");
  std::size_t ts = tsize(rt);
  auto at = [&](int i) { return static_cast<char*>(r) + std::size_t(disp ? disp[i] : each * i) * ts; };
  auto cnt = [&](int i) { return std::size_t(rn ? rn[i] : each) * ts; };
  if (s == MPI_IN_PLACE)
    k.contrib[std::size_t(me)].assign(at(me), at(me) + cnt(me));
  else
    k.contrib[std::size_t(me)].assign(static_cast<char const*>(s), static_cast<char const*>(s) + std::size_t(sn) * tsize(st));
  if (root >= 0 && me != root) {
    wait_for(c, k, me, fn);
  } else {
    wait_all(c, k, fn);
    for (int i = 0; i < np; ++i) {
      auto& d = k.contrib[std::size_t(i)];
      if (d.size() > cnt(i)) violate("mpi-error", std::string(fn) + ": contribution larger than its slot");
      if (!d.empty()) std::memcpy(at(i), d.data(), d.size());
    }
  }
  leave(R().comms[std::size_t(h)], seq);
  return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm h) {
  return gather_impl("MPI_Gather", s, sn, st, r, nullptr, nullptr, rn, rt, root, h);
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, int root,
    MPI_Comm h) {
  return gather_impl("MPI_Gatherv", s, sn, st, r, rn, d, 0, rt, root, h);
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm h) {
  return gather_impl("MPI_Allgather", s, sn, st, r, nullptr, nullptr, rn, rt, -1, h);
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, MPI_Comm h) {
  return gather_impl("MPI_Allgatherv", s, sn, st, r, rn, d, 0, rt, -1, h);
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm h) {
  yield_point();
  auto& c = C(h, "MPI_Scatter");
  u64 seq = c.coll_seq;
  int me = c.rank, np = int(c.sh->members.size());
  auto& k = enter(c, "MPI_Scatter(root=" + std::to_string(root) + ")");
  std::size_t nb = std::size_t(rn) * tsize(rt);
  if (me == root) {
    std::size_t sb = std::size_t(sn) * tsize(st);
    for (int i = 0; i < np; ++i) {
      auto p = static_cast<char const*>(s) + std::size_t(i) * sb;
      k.contrib[std::size_t(i)].assign(p, p + sb);
    }
  }
  wait_for(c, k, root, "MPI_Scatter");
  if (r != MPI_IN_PLACE && nb) std::memcpy(r, k.contrib[std::size_t(me)].data(), nb);
  leave(R().comms[std::size_t(h)], seq);
  return MPI_SUCCESS;
}
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st, void* r, const int* rn, const int* rd,
    MPI_Datatype rt, MPI_Comm h) {
  yield_point();
  auto& c = C(h, "MPI_Alltoallv");
  u64 seq = c.coll_seq;
  int me = c.rank, np = int(c.sh->members.size());
  auto& k = enter(c, "MPI_Alltoall");
  if (k.per_rank.empty()) k.per_rank.resize(std::size_t(np) * std::size_t(np));
  for (int i = 0; i < np; ++i) {
    auto p = static_cast<char const*>(s) + std::size_t(sd[i]) * tsize(st);
    k.per_rank[std::size_t(me * np + i)].assign(p, p + std::size_t(sn[i]) * tsize(st));
  }
  wait_all(c, k, "MPI_Alltoall");
  for (int i = 0; i < np; ++i) {
    auto& d = k.per_rank[std::size_t(i * np + me)];
    if (d.size() > std::size_t(rn[i]) * tsize(rt)) violate("mpi-error", "MPI_Alltoall truncation");
    if (!d.empty()) std::memcpy(static_cast<char*>(r) + std::size_t(rd[i]) * tsize(rt), d.data(), d.size());
  }
  leave(R().comms[std::size_t(h)], seq);
  return MPI_SUCCESS;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm h) {
  int np;
  MPI_Comm_size(h, &np);
  std::vector<int> a(std::size_t(np), sn), b(std::size_t(np), rn), da, db;
  for (int i = 0; i < np; ++i) da.push_back(i * sn), db.push_back(i * rn);
  return MPI_Alltoallv(s, a.data(), da.data(), st, r, b.data(), db.data(), rt, h);
}
}
