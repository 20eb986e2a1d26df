// Case accounting of the native harnesses. A harness calls `run()` of its own, guarding every case with
//   if (vf::want("kind", key)) { vf::nontrivial(); vf::check(cond, "message"); ... }
// The current case is kept in shared memory: the driver (lib/cxx.py) knows which one brings the process down.
#ifndef VERIF_VF_HPP
#define VERIF_VF_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
namespace vf {
struct Shared
{
  std::int64_t index;
  std::int64_t len;
  char key[4080];
};
inline Shared *shared;
inline std::int64_t idx = -1, from = -1, shard = 0, nshards = 1;
inline bool thorough = false;
inline std::string only, cur, curkind;
inline bool failed = false, nt = false, active = false;
struct Count
{
  std::int64_t cases = 0;
  std::unordered_set<std::size_t> distinct;
  std::vector<std::string> samples;
};
inline std::map<std::string, Count> counts;

inline void close_case()
{
  if (!active) return;
  auto &c = counts[curkind];
  ++c.cases;
  if (nt) {
    c.distinct.insert(std::hash<std::string>{}(cur));
    if (c.samples.size() < 2) c.samples.push_back(cur);
  }
  active = false;
}
inline bool want(const std::string &kind, const std::string &key)
{
  close_case();
  ++idx;
  if (!only.empty()) {
    if (only != key) return false;
  } else if (idx % nshards != shard || idx <= from)
    return false;
  cur = key;
  curkind = kind;
  failed = false;
  nt = false;
  active = true;
  shared->index = idx;
  shared->len = static_cast<std::int64_t>(std::min<std::size_t>(key.size(), sizeof(shared->key)));
  std::memcpy(shared->key, key.data(), static_cast<std::size_t>(shared->len));
  return true;
}
inline void nontrivial() { nt = true; }
inline void fail(const std::string &msg)
{
  if (failed) return;// one message per case
  failed = true;
  std::string m = msg;
  for (auto &c : m)
    if (c == '\n' || c == '\t') c = ' ';
  std::printf("FAIL\t%s\t%s\n", cur.c_str(), m.c_str());
  std::fflush(stdout);
}
template<typename... A> std::string str(const A &...a)
{
  std::ostringstream o;
  o << std::setprecision(12);
  (o << ... << a);
  return o.str();
}
template<typename... A> bool check(bool c, const A &...a)
{
  if (!c) fail(str(a...));
  return c;
}
inline bool near(double a, double b, double tol = 1e-11)
{
  return std::isfinite(a) && std::isfinite(b) && std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b)));
}
template<typename... A> bool eq(double got, double want_, double tol, const A &...a)
{
  return check(near(got, want_, tol), a..., ": ", got, " instead of ", want_);
}
template<typename F> void guarded(F f)
{
  try {
    f();
  } catch (const std::exception &e) {
    fail(std::string("unexpected exception: ") + e.what());
  }
}
}// namespace vf
void run();
int main(int argc, char **argv)
{
#ifndef __SANITIZE_ADDRESS__
  // a runaway allocation fails instead of taking the machine
  struct rlimit rl{ 3ull << 30, 3ull << 30 };
  setrlimit(RLIMIT_AS, &rl);
#endif
  const char *shm = nullptr;
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string a = argv[i];
    if (a == "--shm") shm = argv[i + 1];
    if (a == "--shard") vf::shard = std::atol(argv[i + 1]);
    if (a == "--of") vf::nshards = std::atol(argv[i + 1]);
    if (a == "--from") vf::from = std::atol(argv[i + 1]);
    if (a == "--only") vf::only = argv[i + 1];
    if (a == "--tier") vf::thorough = std::string(argv[i + 1]) == "thorough";
  }
  if (shm) {
    const int fd = open(shm, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(vf::Shared)) != 0) return 3;
    vf::shared = static_cast<vf::Shared *>(mmap(nullptr, sizeof(vf::Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  } else
    vf::shared = new vf::Shared();
  try {
    run();
  } catch (const std::exception &e) {
    std::string m = e.what();
    for (auto &c : m)
      if (c == '\n' || c == '\t') c = ' ';
    std::printf("FAIL\t%s\tunexpected exception: %s\n", vf::cur.empty() ? "start" : vf::cur.c_str(), m.c_str());
    std::printf("LEFT\t%ld\n", static_cast<long>(vf::idx));// go on after it
  }
  vf::close_case();
  for (const auto &[k, c] : vf::counts) {
    std::printf("KIND\t%s\t%ld\t%zu\n", k.c_str(), static_cast<long>(c.cases), c.distinct.size());
    for (const auto &s : c.samples) std::printf("SAMPLE\t%s\t%s\n", k.c_str(), s.c_str());
  }
  std::printf("DONE\n");
  return 0;
}
#endif
