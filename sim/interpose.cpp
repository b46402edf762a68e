// The clock, allocator and file seams: these definitions in the executable
// take precedence over libc's for the program under test and for libstdc++.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <algorithm>
#include <unordered_map>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include "sim.hpp"
#include "world.hpp"

namespace sim {
MemCfg mem;
u64 mem_allocs[64];
static i64 live_blocks = 0;
static Rng mem_rng(1);
struct Block {
  std::size_t n;
  int rank;
};
static std::unordered_map<void*, Block>& blocks() {
  static auto m = new std::unordered_map<void*, Block>;
  return *m;
}
static constexpr std::size_t guard_bytes = 64;
static constexpr unsigned char guard_byte = 0xa7;
i64 mem_live_bytes[64], mem_peak_bytes[64];
static void check_guard(void* p, std::size_t n) {
  auto g = static_cast<unsigned char*>(p) + n;
  for (std::size_t i = 0; i < guard_bytes; ++i)
    if (g[i] != guard_byte) violate("memory", "a block of " + std::to_string(n) + " bytes was written beyond its end");
}
void mem_check_guards() {
  for (auto& b : blocks()) check_guard(b.first, b.second.n);
}
void mem_reset(MemCfg const& m) {
  mem = m;
  mem_rng = Rng(m.seed);
  std::memset(mem_allocs, 0, sizeof(mem_allocs));
  live_blocks = 0;
  blocks().clear();
  std::memset(mem_live_bytes, 0, sizeof(mem_live_bytes));
  std::memset(mem_peak_bytes, 0, sizeof(mem_peak_bytes));
}
i64 mem_live_blocks() { return live_blocks; }

FsCfg fs;
FsStats fsst;
void fs_reset(FsCfg const& c) {
  fs = c;
  fsst = FsStats();
}
static std::string scratch;
std::string const& scratch_root() { return scratch; }
void set_scratch(std::string const& d) { scratch = d; }
static void rm_tree(std::string const& p, int depth) {
  if (depth > 8) return;
  DIR* d = opendir(p.c_str());
  if (d) {
    while (auto e = readdir(d)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string q = p + "/" + n;
      struct stat st;
      if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        rm_tree(q, depth + 1);
      else
        unlink(q.c_str());
    }
    closedir(d);
  }
  rmdir(p.c_str());
}
void remove_tree(std::string const& d) {
  if (d.find("/omsim.") == std::string::npos) return;
  rm_tree(d, 0);
}

static bool fd_tracked[4096];
static std::string resolve(char const* path) {
  std::string p = path;
  if (p.empty() || p[0] != '/') {
    char cwd[4096];
    if (getcwd(cwd, sizeof cwd)) p = std::string(cwd) + "/" + p;
  }
  return p;
}
static bool inside(char const* path) {
  if (!path || scratch.empty()) return false;
  auto p = resolve(path);
  if (p.compare(0, scratch.size(), scratch) != 0) return false;
  return p.find("/../") == std::string::npos;
}
// a mutating call on a path: contained, counted, may be the crash point
static void guard(char const* path, char const* what) {
  if (!inside(path))
    violate("escaped-path", std::string(what) + " on a path outside the working directory: " + (path ? path : "(null)"));
}
static void mutation() {
  i64 n = i64(fsst.mutations++);
  event(mix(91, u64(n)));
  if (fs.crash_at == n) {
    fault_fired("process_crash");
    crash_world();
  }
}
template <class F>
static F next(char const* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace sim
using namespace sim;

extern "C" {
void* __wrap_malloc(std::size_t n) {
  if (in_world()) {
    int r = cur_rank();
    i64 k = i64(mem_allocs[r & 63]++);
    if (mem.fail_at >= 0 && r == mem.fail_rank && k >= mem.fail_at && k < mem.fail_at + mem.fail_count &&
        n > mem.fail_above) {
      fault_fired("alloc_failure");
      return nullptr;
    }
  }
  // tracked blocks are followed by a guard that must still be intact at the end
  void* p = std::malloc(mem.track ? n + guard_bytes : n);
  if (!p) return p;
  ++live_blocks;
  if (mem.track) {
    int r = in_world() ? cur_rank() & 63 : 63;
    blocks()[p] = {n, r};
    mem_live_bytes[r] += i64(n);
    mem_peak_bytes[r] = std::max(mem_peak_bytes[r], mem_live_bytes[r]);
    std::memset(static_cast<char*>(p) + n, guard_byte, guard_bytes);
  }
  if (mem.poison) {
    if (mem.poison == 1)
      std::memset(p, 0, n);
    else if (mem.poison == 2)
      std::memset(p, 0xff, n);
    else {
      auto b = static_cast<unsigned char*>(p);
      std::size_t i = 0;
      u64 s = mem_rng.next();
      for (; i + 8 <= n; i += 8) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        std::memcpy(b + i, &s, 8);
      }
      for (; i < n; ++i) b[i] = (unsigned char)(s >> 24);
    }
  }
  return p;
}
void __wrap_free(void* p) {
  if (!p) return;
  --live_blocks;
  std::size_t n = 0;
  auto it = blocks().find(p);
  if (it != blocks().end()) {
    n = it->second.n;
    check_guard(p, n);
    mem_live_bytes[it->second.rank] -= i64(n);
    blocks().erase(it);
  } else if (mem.track) {
    violate("memory", "a block that is not allocated is freed");
  } else
    n = malloc_usable_size(p);
  if (mem.poison) std::memset(p, 0xdb, n);
  std::free(p);
}

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (in_world()) {
    u64 us = clock_us();
    ts->tv_sec = time_t(us / 1000000);
    ts->tv_nsec = long(us % 1000000) * 1000;
    ++world->now_us;
    return 0;
  }
  static auto real = next<int (*)(clockid_t, struct timespec*)>("clock_gettime");
  return real(id, ts);
}

static bool mode_writes(char const* m) { return std::strpbrk(m, "wa+") != nullptr; }
static FILE* do_fopen(char const* name, char const* path, char const* mode) {
  auto real = next<FILE* (*)(char const*, char const*)>(name);
  if (!in_world()) return real(path, mode);
  i64 n = i64(fsst.opens++);
  if (mode_writes(mode)) {
    guard(path, "fopen");
    mutation();
  }
  if (!inside(path)) return real(path, mode);
  bool wfail = mode_writes(mode) && fs.fail_wopen_at == i64(fsst.wopens++);
  if (fs.fail_open_at == n || wfail) {
    fault_fired("open_error");
    ++fsst.errors_injected;
    errno = mode_writes(mode) ? ENOSPC : EIO;
    return nullptr;
  }
  FILE* f = real(path, mode);
  if (f) {
    int fd = fileno(f);
    if (fd >= 0 && fd < 4096) fd_tracked[fd] = true;
  }
  return f;
}
FILE* fopen(char const* path, char const* mode) { return do_fopen("fopen", path, mode); }
FILE* fopen64(char const* path, char const* mode) { return do_fopen("fopen64", path, mode); }
int fclose(FILE* f) {
  static auto real = next<int (*)(FILE*)>("fclose");
  int fd = fileno(f);
  bool t = in_world() && fd >= 0 && fd < 4096 && fd_tracked[fd];
  if (fd >= 0 && fd < 4096) fd_tracked[fd] = false;
  static i64 closes = 0;
  if (fsst.opens == 0) closes = 0;
  int rc = real(f);
  if (t) {
    i64 n = closes++;
    if (fs.fail_close_at == n) {
      fault_fired("close_error");
      ++fsst.errors_injected;
      errno = EIO;
      return EOF;
    }
  }
  return rc;
}
static bool tracked(int fd) { return in_world() && fd >= 0 && fd < 4096 && fd_tracked[fd]; }
// decide the fate of a write of n bytes: returns bytes to write, or -1 with errno
static ssize_t write_fate(size_t n) {
  i64 k = i64(fsst.writes++);
  if (fs.eio_write_at == k) {
    fault_fired("write_eio");
    ++fsst.errors_injected;
    errno = EIO;
    return -1;
  }
  if (fs.fail_write_after >= 0) {
    i64 room = fs.fail_write_after - i64(fsst.bytes_written);
    if (room <= 0) {
      fault_fired("disk_full");
      ++fsst.errors_injected;
      errno = ENOSPC;
      return -1;
    }
    if (i64(n) > room) {
      fault_fired("disk_full_partial");
      return room;
    }
  }
  if (chooser.flip(fs.p_eintr)) {
    fault_fired("write_eintr");
    errno = EINTR;
    return -1;
  }
  if (n > 1 && chooser.flip(fs.p_short_write)) {
    fault_fired("short_write");
    return ssize_t(1 + chooser.pick(u32(std::min<size_t>(n - 1, 4096))));
  }
  return ssize_t(n);
}
ssize_t write(int fd, void const* buf, size_t n) {
  static auto real = next<ssize_t (*)(int, void const*, size_t)>("write");
  if (!tracked(fd)) return real(fd, buf, n);
  i64 m = i64(fsst.mutations);
  if (fs.crash_at == m && fs.crash_torn && n > 1) {
    size_t part = chooser.pick(u32(std::min<size_t>(n, 1u << 20)));
    if (real(fd, buf, part) < 0) return -1;
    fault_fired("torn_write");
  }
  mutation();
  ssize_t k = write_fate(n);
  if (k < 0) return k;
  ssize_t r = real(fd, buf, size_t(k));
  if (r > 0) fsst.bytes_written += u64(r);
  return r;
}
ssize_t writev(int fd, struct iovec const* v, int cnt) {
  static auto real = next<ssize_t (*)(int, struct iovec const*, int)>("writev");
  if (!tracked(fd)) return real(fd, v, cnt);
  std::string all;
  for (int i = 0; i < cnt; ++i) all.append(static_cast<char const*>(v[i].iov_base), v[i].iov_len);
  return write(fd, all.data(), all.size());
}
ssize_t read(int fd, void* buf, size_t n) {
  static auto real = next<ssize_t (*)(int, void*, size_t)>("read");
  if (!tracked(fd)) return real(fd, buf, n);
  i64 k = i64(fsst.reads++);
  if (fs.eio_read_at == k) {
    fault_fired("read_eio");
    ++fsst.errors_injected;
    errno = EIO;
    return -1;
  }
  if (chooser.flip(fs.p_eintr)) {
    fault_fired("read_eintr");
    errno = EINTR;
    return -1;
  }
  if (n > 1 && chooser.flip(fs.p_short_read)) {
    fault_fired("short_read");
    n = 1 + chooser.pick(u32(std::min<size_t>(n - 1, 4096)));
  }
  return real(fd, buf, n);
}
static bool path_fate(char const* path, char const* what, i64 fail_at, i64& counter) {
  guard(path, what);
  mutation();
  i64 n = counter++;
  if (fail_at == n) {
    fault_fired((std::string(what) + "_error").c_str());
    ++fsst.errors_injected;
    errno = ENOSPC;
    return false;
  }
  return true;
}
int mkdir(char const* path, mode_t m) {
  static auto real = next<int (*)(char const*, mode_t)>("mkdir");
  static i64 n = 0;
  if (fsst.mutations == 0) n = 0;
  if (in_world() && !path_fate(path, "mkdir", fs.fail_mkdir_at, n)) return -1;
  return real(path, m);
}
int unlink(char const* path) {
  static auto real = next<int (*)(char const*)>("unlink");
  static i64 n = 0;
  if (in_world() && !path_fate(path, "unlink", -1, n)) return -1;
  return real(path);
}
int rmdir(char const* path) {
  static auto real = next<int (*)(char const*)>("rmdir");
  static i64 n = 0;
  if (in_world() && !path_fate(path, "rmdir", -1, n)) return -1;
  return real(path);
}
int remove(char const* path) {
  static auto real = next<int (*)(char const*)>("remove");
  static i64 n = 0;
  if (in_world() && !path_fate(path, "remove", -1, n)) return -1;
  return real(path);
}
int rename(char const* a, char const* b) {
  static auto real = next<int (*)(char const*, char const*)>("rename");
  static i64 n = 0;
  if (in_world() && (!path_fate(a, "rename", -1, n) || !path_fate(b, "rename", -1, n))) return -1;
  return real(a, b);
}
static int do_open(char const* name, char const* path, int flags, mode_t m) {
  auto real = next<int (*)(char const*, int, mode_t)>(name);
  if (!in_world()) return real(path, flags, m);
  if (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) {
    guard(path, "open");
    mutation();
  }
  int fd = real(path, flags, m);
  if (fd >= 0 && fd < 4096 && inside(path)) fd_tracked[fd] = true;
  return fd;
}
int open(char const* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = mode_t(va_arg(ap, unsigned));
  va_end(ap);
  return do_open("open", path, flags, m);
}
int open64(char const* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = mode_t(va_arg(ap, unsigned));
  va_end(ap);
  return do_open("open64", path, flags, m);
}
int close(int fd) {
  static auto real = next<int (*)(int)>("close");
  if (fd >= 0 && fd < 4096) fd_tracked[fd] = false;
  return real(fd);
}
}
