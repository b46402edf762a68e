// Driver: seeded search over programs, schedules and faults; gating,
// minimisation and replay of failures; summary for the evidence file.
#include "harness.hpp"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

using namespace sim;

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
std::string Program::text() const {
  std::ostringstream o;
  o << "scenario " << scenario << "\n";
  for (auto& kv : cfg) o << "cfg " << kv.first << " " << kv.second << "\n";
  for (auto& op : ops) {
    o << "op " << op.name;
    for (auto x : op.a) o << " " << x;
    o << "\n";
  }
  return o.str();
}
void common_cfg(Program& p, Rng& r, int maxranks, double p_faulty) {
  p.cfg["nranks"] = r.range(1, maxranks);
  p.cfg["faulty"] = r.flip(p_faulty) ? 1 : 0;
  p.cfg["policy"] = i64(r.next() >> 8);
  p.cfg["sched"] = i64(r.next() >> 8);
  p.cfg["poison"] = r.range(0, 3);
}
WorldCfg world_cfg(Program const& p, bool test_world, int nranks) {
  WorldCfg c;
  c.nranks = nranks > 0 ? nranks : int(p.get("nranks", 1));
  Rng r(u64(p.get("policy", 1)));
  c.policy = draw_policy(r, test_world && p.get("faulty"), c.nranks);
  return c;
}

static i64 wall_us() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return i64(ts.tv_sec) * 1000000 + ts.tv_nsec / 1000;
}

// a run that was cut off: it is repeated from its seed, not from its decisions
static bool endless(std::string const& kind) { return kind == "hang" || kind == "no-progress"; }

struct RunResult {
  std::string status = "harness";  // ok, violation, harness
  std::string kind, detail;
  u64 event_hash = 0, sched_hash = 0, steps = 0, switches = 0, msgs = 0, colls = 0, sim_us = 0, worlds = 0, nonzero = 0, ndec = 0;
  std::map<std::string, u64> faults, probes;
  std::unordered_map<u32, u32> sparse;
  bool from_seed = false;
};

static Scenario const* find_scenario(std::string const& prop, std::string const& n) {
  for (auto& s : scenarios())
    if (s.name == n && (prop.empty() || s.property == prop)) return &s;
  return nullptr;
}

// ---- child side ----
static int out_fd = -1;
static char altstack[1 << 17];
static bool reported = false;
static void put(std::string const& s) {
  std::size_t o = 0;
  while (o < s.size()) {
    ssize_t k = ::write(out_fd, s.data() + o, s.size() - o);
    if (k <= 0) break;
    o += std::size_t(k);
  }
}
static std::string oneline(std::string s) {
  for (auto& c : s)
    if (c == '\n' || c == '\r') c = ' ';
  if (s.size() > 1500) s.resize(1500);
  return s;
}
static void report(std::string const& status, std::string const& kind, std::string const& detail) {
  if (reported) return;
  reported = true;
  std::ostringstream o;
  o << "status " << status << "\nkind " << kind << "\ndetail " << oneline(detail) << "\n";
  o << "num " << stats.event_hash << " " << stats.sched_hash << " " << stats.steps << " " << stats.switches << " "
    << stats.msgs << " " << stats.colls << " " << stats.sim_us << " " << stats.worlds << " " << chooser.nonzero << " "
    << chooser.taken << "\n";
  for (auto& kv : stats.faults) o << "fault " << kv.first << " " << kv.second << "\n";
  for (auto& kv : stats.probes) o << "probe " << kv.first << " " << kv.second << "\n";
  // (very long runs are replayed from their seed)
  if (status != "ok" && (endless(kind) || chooser.taken > Chooser::log_max)) {
    o << "from_seed 1\n";
  } else if (status != "ok") {
    o << "dec";
    for (std::size_t i = 0; i < chooser.log.size(); ++i)
      if (chooser.log[i]) o << " " << i << ":" << chooser.log[i];
    o << "\n";
  }
  o << "end\n";
  put(o.str());
}
static void on_signal(int sig) {
  if (sig == SIGVTALRM || sig == SIGPROF)
    report("violation", "hang", "no scheduling point reached within the CPU limit");
  else
    report("violation", "crash", std::string("signal ") + std::to_string(sig) + " (" + strsignal(sig) + ") on rank " +
                                     std::to_string(cur_rank()));
  _exit(0);
}
static void child(Scenario const& sc, Program const& p, bool replaying, std::unordered_map<u32, u32> const& sparse,
    std::string const& dir, int cpu_s) {
  stack_t ss{};
  ss.ss_sp = altstack;
  ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
  struct itimerval it{};
  it.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
  struct rlimit rl{3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  if (!getenv("OMSIM_VERBOSE")) {
    int nul = ::open("/dev/null", O_RDWR);
    dup2(nul, 1);
    if (!getenv("OMSIM_KEEP_OUTPUT")) dup2(nul, 2);
  }
  mkdir(dir.c_str(), 0700);
  set_scratch(dir);
  if (chdir(dir.c_str()) != 0) _exit(9);
  chooser.replaying = replaying;
  chooser.sparse = sparse;
  chooser.rng = Rng(u64(p.get("sched", 1)));
  MemCfg mc;
  mc.poison = int(p.get("poison", 0));
  mc.seed = u64(p.get("sched", 1));
  mem_reset(mc);
  fs_reset(FsCfg());
  on_violate = [](std::string const& k, std::string const& d) {
    if (k == "harness-error")
      report("harness", k, d);
    else
      report("violation", k, d);
    _exit(0);
  };
  try {
    sc.run(p);
  } catch (std::exception const& e) {
    report("harness", "uncaught", e.what());
    _exit(0);
  }
  report("ok", "", "");
  _exit(0);
}

// ---- parent side ----
static std::string root_dir;
static int cpu_limit = 100;
struct Job {
  pid_t pid = -1;
  int fd = -1;
  u64 index = 0;
  std::string buf, dir;
};
static Job start(Scenario const& sc, Program const& p, bool replaying, std::unordered_map<u32, u32> const& sparse, u64 index) {
  static u64 seq = 0;
  Job j;
  j.index = index;
  // constant length so that heap layout does not depend on the slot
  char nm[32];
  snprintf(nm, sizeof nm, "/r%09llu", (unsigned long long)(seq++));
  j.dir = root_dir + nm;
  int pf[2];
  if (pipe(pf) != 0) {
    perror("pipe");
    exit(2);
  }
  j.pid = fork();
  if (j.pid == 0) {
    ::close(pf[0]);
    out_fd = pf[1];
    child(sc, p, replaying, sparse, j.dir, cpu_limit);
  }
  ::close(pf[1]);
  j.fd = pf[0];
  fcntl(j.fd, F_SETFD, FD_CLOEXEC);
  return j;
}
static RunResult finish(Job& j) {
  ::close(j.fd);
  int st = 0;
  waitpid(j.pid, &st, 0);
  remove_tree(j.dir);
  RunResult r;
  std::istringstream in(j.buf);
  std::string line;
  bool ended = false;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "status") l >> r.status;
    else if (k == "kind") l >> r.kind;
    else if (k == "detail") r.detail = line.size() > 7 ? line.substr(7) : "";
    else if (k == "num")
      l >> r.event_hash >> r.sched_hash >> r.steps >> r.switches >> r.msgs >> r.colls >> r.sim_us >> r.worlds >> r.nonzero >> r.ndec;
    else if (k == "fault") { std::string n; u64 v; l >> n >> v; r.faults[n] = v; }
    else if (k == "probe") { std::string n; u64 v; l >> n >> v; r.probes[n] = v; }
    else if (k == "from_seed") r.from_seed = true;
    else if (k == "dec") {
      std::string t;
      while (l >> t) {
        auto c = t.find(':');
        r.sparse[u32(std::stoul(t.substr(0, c)))] = u32(std::stoul(t.substr(c + 1)));
      }
    } else if (k == "end") ended = true;
  }
  if (!ended) {
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) {
      r.status = "violation";
      r.kind = "crash";
      r.detail = "ended by signal " + std::to_string(WTERMSIG(st));
    } else if (WIFEXITED(st)) {
      r.status = "violation";
      r.kind = "exit";
      r.detail = "the program ended in the middle of the run with status " + std::to_string(WEXITSTATUS(st));
    } else {
      r.status = "harness";
      r.kind = "no-report";
      r.detail = "wait status " + std::to_string(st);
    }
  }
  return r;
}
static bool pump(Job& j, int ms) {  // true when the child closed its pipe
  struct pollfd pf{j.fd, POLLIN, 0};
  if (poll(&pf, 1, ms) <= 0) return false;
  char b[65536];
  ssize_t k = ::read(j.fd, b, sizeof b);
  if (k <= 0) return true;
  j.buf.append(b, std::size_t(k));
  return false;
}
static RunResult run_one(Scenario const& sc, Program const& p, bool replaying = false, std::unordered_map<u32, u32> const& sparse = {}) {
  Job j = start(sc, p, replaying, sparse, 0);
  while (!pump(j, 1000)) {
  }
  return finish(j);
}
// run several candidates at once, results in order
static std::vector<RunResult> run_many(Scenario const& sc, std::vector<Program> const& ps, bool replaying, std::vector<std::unordered_map<u32, u32>> const& sp) {
  std::vector<RunResult> out(std::max(ps.size(), sp.size()));
  std::vector<Job> live;
  std::size_t next = 0, n = out.size();
  while (next < n || !live.empty()) {
    while (next < n && live.size() < 8) {
      auto& p = ps.size() == 1 ? ps[0] : ps[next];
      live.push_back(start(sc, p, replaying, sp.empty() ? std::unordered_map<u32, u32>() : sp[next], next));
      ++next;
    }
    for (std::size_t i = 0; i < live.size();) {
      if (pump(live[i], 2)) {
        u64 idx = live[i].index;
        out[idx] = finish(live[i]);
        live.erase(live.begin() + long(i));
      } else
        ++i;
    }
  }
  return out;
}

struct Known {
  std::string property, scenario, kind, detail;
  std::string line;
};
static std::vector<Known> known;
static void load_known(std::string const& path) {
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    if (line.compare(0, 8, "finding:") != 0) continue;
    // finding: property=<id> scenario=<s> kind=<k> match=<<substring>> what=<text>
    Known k;
    auto field = [&](std::string const& n) -> std::string {
      auto p = line.find(n + "=");
      if (p == std::string::npos) return "";
      p += n.size() + 1;
      if (line.compare(p, 2, "<<") == 0) {
        auto e = line.find(">>", p);
        return line.substr(p + 2, e - p - 2);
      }
      return line.substr(p, line.find(' ', p) - p);
    };
    k.property = field("property");
    k.scenario = field("scenario");
    k.kind = field("kind");
    k.detail = field("match");
    k.line = field("what");
    known.push_back(k);
  }
}
static Known const* match_known(std::string const& prop, Program const& p, RunResult const& r) {
  for (auto& k : known)
    if (k.property == prop && (k.scenario.empty() || k.scenario == p.scenario) && k.kind == r.kind && !k.detail.empty() &&
        r.detail.find(k.detail) != std::string::npos)
      return &k;
  return nullptr;
}

static void write_replay(std::string const& path, std::string const& prop, u64 seed, u64 index, Program const& p, RunResult const& r,
    std::unordered_map<u32, u32> const& sparse) {
  std::ofstream f(path);
  f << "property " << prop << "\nseed " << seed << "\nindex " << index << "\n" << p.text();
  if (r.from_seed) f << "from_seed 1\n";
  std::vector<std::pair<u32, u32>> d(sparse.begin(), sparse.end());
  std::sort(d.begin(), d.end());
  for (auto& x : d) f << "decision " << x.first << " " << x.second << "\n";
  f << "expect_kind " << r.kind << "\nexpect_hash " << r.event_hash << "\nexpect_detail " << r.detail << "\n";
}
struct Replay {
  std::string prop;
  Program p;
  std::unordered_map<u32, u32> sparse;
  std::string kind, detail;
  u64 hash = 0;
  bool from_seed = false;
};
static Replay read_replay(std::string const& path) {
  Replay r;
  std::ifstream f(path);
  if (!f) {
    std::cerr << "cannot read " << path << "\n";
    exit(2);
  }
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "property") l >> r.prop;
    else if (k == "scenario") l >> r.p.scenario;
    else if (k == "cfg") { std::string n; i64 v; l >> n >> v; r.p.cfg[n] = v; }
    else if (k == "op") {
      Op o;
      l >> o.name;
      i64 v;
      while (l >> v) o.a.push_back(v);
      r.p.ops.push_back(o);
    } else if (k == "decision") { u32 a, b; l >> a >> b; r.sparse[a] = b; }
    else if (k == "from_seed") r.from_seed = true;
    else if (k == "expect_kind") l >> r.kind;
    else if (k == "expect_hash") l >> r.hash;
    else if (k == "expect_detail") r.detail = line.substr(std::min<std::size_t>(line.size(), 14));
  }
  return r;
}

static std::string json_str(std::string const& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += c;
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o + "\"";
}

static void minimise(Scenario const& sc, Program& p, std::unordered_map<u32, u32>& sparse, RunResult& res, double budget_s) {
  i64 t_end = wall_us() + i64(budget_s * 1e6);
  auto kind = res.kind;
  auto left = [&]() { return wall_us() < t_end; };
  auto same = [&](RunResult const& r) { return r.status == "violation" && r.kind == kind; };
  // (a run that was cut off takes too long to try variants of it)
  if (endless(kind) || res.steps > 12000000) return;
  // 1. program: smaller configuration, fewer operations (the schedule is
  // redrawn from the program's own seed)
  bool changed = true;
  while (changed && left()) {
    changed = false;
    std::vector<Program> cand;
    if (p.get("faulty")) {
      auto q = p;
      q.cfg["faulty"] = 0;
      cand.push_back(q);
    }
    for (std::size_t i = 0; i < p.ops.size(); ++i) {
      auto q = p;
      q.ops.erase(q.ops.begin() + long(i));
      cand.push_back(q);
    }
    for (auto& kv : sc.shrink) {
      auto it = p.cfg.find(kv.first);
      if (it == p.cfg.end()) continue;
      for (auto v : kv.second) {
        if (v == it->second) break;
        auto q = p;
        q.cfg[kv.first] = v;
        cand.push_back(q);
      }
    }
    for (std::size_t o = 0; o < cand.size() && left() && !changed; o += 8) {
      std::vector<Program> part(cand.begin() + long(o), cand.begin() + long(std::min(cand.size(), o + 8)));
      auto rs = run_many(sc, part, false, {});
      for (std::size_t i = 0; i < rs.size(); ++i)
        if (same(rs[i])) {
          p = part[i];
          res = rs[i];
          sparse = rs[i].sparse;
          changed = true;
          break;
        }
    }
  }
  if (res.from_seed) return;
  // 2. decisions: delta debugging of the non-default ones
  std::vector<u32> keys;
  for (auto& kv : sparse) keys.push_back(kv.first);
  std::sort(keys.begin(), keys.end());
  auto subset = [&](std::vector<u32> const& ks) {
    std::unordered_map<u32, u32> m;
    for (auto k : ks) m[k] = sparse[k];
    return m;
  };
  {
    auto r = run_one(sc, p, true, {});
    if (same(r)) {
      keys.clear();
      res = r;
    }
  }
  std::size_t chunks = 2;
  while (!keys.empty() && left()) {
    std::size_t len = (keys.size() + chunks - 1) / chunks;
    std::vector<std::vector<u32>> cands;
    for (std::size_t o = 0; o < keys.size(); o += len) {
      std::vector<u32> k;
      for (std::size_t i = 0; i < keys.size(); ++i)
        if (i < o || i >= o + len) k.push_back(keys[i]);
      cands.push_back(k);
    }
    bool got = false;
    for (std::size_t o = 0; o < cands.size() && left() && !got; o += 8) {
      std::vector<std::unordered_map<u32, u32>> sp;
      for (std::size_t i = o; i < std::min(cands.size(), o + 8); ++i) sp.push_back(subset(cands[i]));
      auto rs = run_many(sc, {p}, true, sp);
      for (std::size_t i = 0; i < rs.size(); ++i)
        if (same(rs[i])) {
          keys = cands[o + i];
          res = rs[i];
          got = true;
          break;
        }
    }
    if (got) {
      chunks = std::max<std::size_t>(2, chunks - 1);
    } else {
      if (len <= 1) break;
      chunks = std::min(keys.size(), chunks * 2);
    }
  }
  sparse = subset(keys);
  auto r = run_one(sc, p, true, sparse);
  if (same(r)) res = r;
}

static int replay_main(std::string const& path, bool quiet, bool strict) {
  auto rp = read_replay(path);
  auto sc = find_scenario(rp.prop, rp.p.scenario);
  if (!sc) {
    std::cerr << "unknown scenario " << rp.p.scenario << "\n";
    return 2;
  }
  auto r = run_one(*sc, rp.p, !rp.from_seed, rp.sparse);
  if (!quiet) std::cout << r.status << " " << r.kind << ": " << r.detail << "\n  event hash " << r.event_hash << "\n";
  if (r.status == "harness") return 2;
  if (endless(rp.kind) && r.status == "violation" && endless(r.kind)) {
    if (!quiet) std::cout << "VIOLATION property=" << rp.prop << " replay=" << path << "\n";
    return 1;
  }
  if (r.status == "violation" && r.kind == rp.kind && (!strict || (r.event_hash == rp.hash && r.detail == rp.detail))) {
    if (!quiet) std::cout << "VIOLATION property=" << rp.prop << " replay=" << path << "\n";
    return 1;
  }
  return 0;
}

int main(int argc, char** argv) {
  // one address-space layout for every run
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("OMSIM_NOASLR")) {
    setenv("OMSIM_NOASLR", "1", 1);
    personality(unsigned(pers) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  std::string cmd = argc > 1 ? argv[1] : "list";
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string s = argv[i];
    auto e = s.find('=');
    if (s.compare(0, 2, "--") == 0 && e != std::string::npos) a[s.substr(2, e - 2)] = s.substr(e + 1);
    else pos.push_back(s);
  }
  auto opt = [&](std::string const& k, std::string const& d) { return a.count(k) ? a[k] : d; };
  if (cmd == "list") {
    for (auto& s : scenarios()) std::cout << s.property << " " << s.name << " weight " << s.weight << "\n";
    return 0;
  }
  {
    char const* base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string t = std::string(base) + "/omsim.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) {
      perror("mkdtemp");
      return 2;
    }
    root_dir = b.data();
  }
  struct Cleanup {
    ~Cleanup() { remove_tree(root_dir); }
  } cleanup;
  cpu_limit = std::stoi(opt("cpu", "100"));
  if (cmd == "replay") return replay_main(pos.at(0), opt("quiet", "0") == "1", opt("strict", "0") == "1");

  std::string prop = pos.at(0);
  u64 seed = std::stoull(opt("seed", "1"));
  u64 nruns = std::stoull(opt("runs", "100"));
  double secs = std::stod(opt("secs", "60"));
  std::size_t jobs = std::size_t(std::stoi(opt("jobs", "8")));
  std::string only = opt("scenario", "");
  u64 first = std::stoull(opt("first", "0"));
  std::string outdir = opt("out", "/verif/out");
  load_known(opt("known", ""));
  std::vector<Scenario const*> scs;
  int tw = 0;
  for (auto& s : scenarios())
    if (s.property == prop && (only.empty() || s.name == only)) scs.push_back(&s), tw += s.weight;
  if (scs.empty()) {
    std::cerr << "no scenario for " << prop << "\n";
    return 2;
  }
  auto make = [&](u64 idx) {
    u64 s = mix(mix(seed, hash_str(prop)), idx);
    Rng r(s);
    // scenarios take turns in proportion to their weight
    int t = int(idx % u64(tw));
    std::size_t k = 0;
    while (t >= scs[k]->weight) t -= scs[k++]->weight;
    Program p = scs[k]->generate(r, idx / u64(tw) * u64(scs[k]->weight) + u64(t));
    p.scenario = scs[k]->name;
    return std::make_pair(scs[k], p);
  };
  if (cmd == "show") {
    std::cout << make(first).second.text();
    return 0;
  }
  if (cmd == "one") {
    auto m = make(first);
    auto r = run_one(*m.first, m.second);
    std::cout << m.second.text() << r.status << " " << r.kind << ": " << r.detail << "\n  event " << r.event_hash << " sched "
              << r.sched_hash << " steps " << r.steps << " msgs " << r.msgs << " dec " << r.ndec << "/" << r.nonzero << "\n";
    for (auto& f : r.faults) std::cout << "  fault " << f.first << " " << f.second << "\n";
    for (auto& f : r.probes) std::cout << "  probe " << f.first << " " << f.second << "\n";
    return r.status == "ok" ? 0 : 1;
  }
  if (cmd != "search") return 2;

  i64 t0 = wall_us();
  std::vector<Job> live;
  std::map<u64, RunResult> bad;
  std::map<std::string, u64> faults, probes, per_scenario;
  std::map<std::string, u64> known_hits;
  std::set<u64> scheds;
  u64 next = first, done = 0, faulty_runs = 0, steps = 0, switches = 0, msgs = 0, colls = 0, sim_us = 0, worlds = 0, nontrivial = 0;
  u64 stop_at = first + nruns, max_steps = 0;
  bool harness_bad = false;
  std::string harness_what;
  u64 all_hash = 0;
  std::map<u64, u64> hashes;
  while (true) {
    while (live.size() < jobs && next < stop_at && (wall_us() - t0) < i64(secs * 1e6) && !harness_bad) {
      auto m = make(next);
      live.push_back(start(*m.first, m.second, false, {}, next));
      ++next;
    }
    if (live.empty()) break;
    std::vector<struct pollfd> pf;
    for (auto& j : live) pf.push_back({j.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 500);
    for (std::size_t i = 0; i < live.size();) {
      if (!pump(live[i], 0)) {
        ++i;
        continue;
      }
      u64 idx = live[i].index;
      auto r = finish(live[i]);
      live.erase(live.begin() + long(i));
      ++done;
      auto m = make(idx);
      ++per_scenario[m.first->name];
      for (auto& f : r.faults) faults[f.first] += f.second;
      for (auto& f : r.probes) probes[f.first] += f.second;
      max_steps = std::max(max_steps, r.steps);
      steps += r.steps, switches += r.switches, msgs += r.msgs, colls += r.colls, sim_us += r.sim_us, worlds += r.worlds;
      if (r.nonzero || !r.faults.empty()) ++faulty_runs;
      if (r.nonzero && scheds.insert(mix(r.sched_hash, r.event_hash)).second) ++nontrivial;
      hashes[idx] = mix(r.event_hash, r.sched_hash);
      if (r.status == "harness") {
        harness_bad = true;
        harness_what = "run " + std::to_string(idx) + ": " + r.kind + " " + r.detail;
      } else if (r.status == "violation") {
        auto k = match_known(prop, m.second, r);
        if (k) {
          ++known_hits[k->line];
        } else {
          bad[idx] = r;
          stop_at = std::min(stop_at, idx);
        }
      }
    }
  }
  for (auto& h : hashes) all_hash = mix(all_hash, h.second);
  // determinism recheck: the same run number gives the same log hash again
  u64 rechecked = 0, mismatches = 0;
  u64 twice = std::stoull(opt("twice", "0"));
  if (!harness_bad && bad.empty())
    for (auto it = hashes.begin(); it != hashes.end() && rechecked < twice;) {
      std::vector<Job> js;
      std::vector<u64> want, idxs;
      for (int k = 0; k < 8 && it != hashes.end() && rechecked + js.size() < twice; ++k, ++it) {
        auto m = make(it->first);
        js.push_back(start(*m.first, m.second, false, {}, it->first));
        want.push_back(it->second);
        idxs.push_back(it->first);
      }
      for (std::size_t k = 0; k < js.size(); ++k) {
        while (!pump(js[k], 1000)) {
        }
        auto r = finish(js[k]);
        ++rechecked;
        if (mix(r.event_hash, r.sched_hash) != want[k]) ++mismatches, std::printf("note: run %llu differed when repeated\n", (unsigned long long)idxs[k]);
      }
    }
  double search_s = double(wall_us() - t0) / 1e6;
  int rc = 0;
  std::string viol_json;
  if (harness_bad) {
    std::cerr << "HARNESS: " << harness_what << "\n";
    rc = 2;
  } else if (!bad.empty()) {
    auto idx = bad.begin()->first;
    auto res = bad.begin()->second;
    auto m = make(idx);
    auto p = m.second;
    std::cout << "run " << idx << " (seed " << seed << ", scenario " << p.scenario << "): " << res.kind << ": " << res.detail << "\n";
    // gate 1: the same seed gives the same execution
    auto again = run_one(*m.first, p);
    bool exact = again.status == "violation" && again.kind == res.kind && again.event_hash == res.event_hash &&
                 again.sched_hash == res.sched_hash;
    bool loose = again.status == "violation";
    if (!loose) {
      // a memory error may depend on what the parent left in the heap
      for (int k = 0; k < 3 && !loose; ++k) {
        again = run_one(*m.first, p);
        loose = again.status == "violation";
      }
    }
    if (!loose && res.kind == "hang") {
      std::cout << "note: run " << idx << " was slow once and finished when repeated\n";
    } else if (!loose) {
      std::cerr << "HARNESS: the violation of run " << idx << " did not repeat\n";
      rc = 2;
    } else {
      if (!exact) std::cout << "note: repeated with a different detail: " << again.kind << ": " << again.detail << "\n";
      res = again;
      auto sparse = res.sparse;
      auto orig = p;
      auto orig_res = res;
      auto orig_sparse = sparse;
      std::size_t nd = sparse.size();
      minimise(*m.first, p, sparse, res, std::stod(opt("min", "40")));
      mkdir(outdir.c_str(), 0755);
      std::string rdir = outdir + "/replays";
      mkdir(rdir.c_str(), 0755);
      std::string path = rdir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
      write_replay(path, prop, seed, idx, p, res, sparse);
      // gate 2: a fresh process replays the file
      auto fresh = [&]() {
        pid_t c = fork();
        if (c == 0) {
          execl("/proc/self/exe", argv[0], "replay", path.c_str(), "--quiet=1", "--strict=1", (char*)nullptr);
          _exit(9);
        }
        int st;
        waitpid(c, &st, 0);
        return WIFEXITED(st) ? WEXITSTATUS(st) : 9;
      };
      int f = fresh();
      if (f != 1) {
        std::cout << "note: the minimised file did not replay; keeping the full trace\n";
        write_replay(path, prop, seed, idx, orig, orig_res, orig_sparse);
        p = orig, res = orig_res, sparse = orig_sparse;
        f = fresh();
      }
      if (f != 1) std::cout << "note: a fresh process does not repeat the failure exactly (memory error?)\n";
      std::cout << "minimised to:\n" << p.text() << "  " << sparse.size() << " of " << nd << " non-default decisions kept\n  "
                << res.kind << ": " << res.detail << "\n";
      std::cout << "VIOLATION property=" << prop << " replay=" << path << "\n";
      viol_json = "{\"kind\":" + json_str(res.kind) + ",\"detail\":" + json_str(res.detail) + ",\"run\":" + std::to_string(idx) +
                  ",\"replay\":" + json_str(path) + "}";
      rc = 1;
    }
  }
  for (auto& k : known_hits) std::cout << "KNOWN-FINDING: property=" << prop << " " << k.first << "\n";
  std::string js = opt("json", "");
  if (!js.empty()) {
    std::ofstream o(js);
    auto dump = [&](char const* n, std::map<std::string, u64> const& m) {
      o << "\"" << n << "\":{";
      bool f = true;
      for (auto& kv : m) {
        if (!f) o << ",";
        f = false;
        o << json_str(kv.first) << ":" << kv.second;
      }
      o << "},";
    };
    o << "{\"property\":" << json_str(prop) << ",\"seed\":" << seed << ",\"runs\":" << done << ",\"runs_planned\":" << nruns
      << ",\"search_seconds\":" << search_s << ",\"runs_with_faults\":" << faulty_runs << ",\"distinct\":" << nontrivial
      << ",\"worlds\":" << worlds << ",\"sched_steps\":" << steps << ",\"longest_run_steps\":" << max_steps << ",\"context_switches\":" << switches << ",\"messages\":" << msgs
      << ",\"collectives\":" << colls << ",\"simulated_seconds\":" << double(sim_us) / 1e6 << ",\"rechecked\":" << rechecked
      << ",\"recheck_mismatches\":" << mismatches << ",\"all_hash\":" << (all_hash >> 1) << ",";
    dump("faults", faults);
    dump("probes", probes);
    dump("scenarios", per_scenario);
    dump("known", known_hits);
    o << "\"violations\":[" << viol_json << "],\"samples\":[";
    for (u64 i = 0; i < 5 && first + i < next; ++i) o << (i ? "," : "") << json_str(make(first + i).second.text());
    o << "]}\n";
  }
  if (rc == 0)
    std::cout << prop << ": held on " << done << " simulated runs (" << nontrivial << " distinct faulty interleavings, " << msgs
              << " messages, longest run " << max_steps << " steps, " << search_s << " s)\n";
  return rc;
}
