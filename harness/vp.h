// Small run-time for the monitoring harnesses: seeded randomness, case loop,
// event records for the driver.
#ifndef VP_H_
#define VP_H_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vp {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { u64(); u64(); }
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // inclusive
  int64_t i(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<int64_t>(u64() % static_cast<uint64_t>(hi - lo + 1));
  }
  double d() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double d(double lo, double hi) { return lo + (hi - lo) * d(); }
  bool p(double prob) { return d() < prob; }
  double gauss() {
    double u = d(), v = d();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[i(0, v.size() - 1)]; }
};

struct Ctx {
  uint64_t seed = 1;
  long cases = 1;
  long only = -1;
  int shard = 0;
  int shards = 1;
  bool thorough = false;
  std::string out = "events.jsonl";
  std::string scratch = ".";
  std::map<std::string, std::string> args;
  // monitors
  std::mutex mu;
  FILE* log = nullptr;
  std::atomic<long> evaluations{0};
  std::unordered_set<uint64_t> covers;
  std::map<std::string, int> per_key;
  std::map<std::string, long> counters;
  std::vector<std::string> samples;
  std::map<std::string, std::array<double, 3>> ranges;
  volatile long* current = nullptr;
};

inline Ctx& ctx() {
  static Ctx* c = new Ctx;
  return *c;
}

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// one decision of an oracle
inline void eval(long n = 1) { ctx().evaluations += n; }
// signature of a non-trivial situation that was actually reached
inline void cover(const std::string& sig) {
  std::lock_guard<std::mutex> l(ctx().mu);
  ctx().covers.insert(std::hash<std::string>()(sig));
}
inline void count(const std::string& what, long n = 1) {
  std::lock_guard<std::mutex> l(ctx().mu);
  ctx().counters[what] += n;
}
inline void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(ctx().mu);
  if (ctx().samples.size() < 6) ctx().samples.push_back(s);
}
// smallest and largest value seen, shown in the evidence
inline void observe(const std::string& what, double v) {
  std::lock_guard<std::mutex> l(ctx().mu);
  auto it = ctx().ranges.emplace(what, std::array<double, 3>{v, v, 0}).first;
  it->second = {std::min(it->second[0], v), std::max(it->second[1], v), it->second[2] + 1};
}
inline void violation(const std::string& key, const std::string& detail) {
  Ctx& c = ctx();
  std::lock_guard<std::mutex> l(c.mu);
  if (++c.per_key[key] > 3 || c.per_key.size() > 40) return;
  fprintf(c.log, "{\"type\":\"violation\",\"key\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}\n",
          esc(key).c_str(), c.current ? (long)*c.current : -1, esc(detail).c_str());
  fflush(c.log);
}
// the harness itself is in trouble: not a verdict about the code
inline void harness_error(const std::string& what) {
  Ctx& c = ctx();
  fprintf(c.log, "{\"type\":\"error\",\"detail\":\"%s\"}\n", esc(what).c_str());
  fflush(c.log);
  _exit(70);
}
#define VP_REQUIRE(cond, key, detail)            \
  do {                                           \
    vp::eval();                                  \
    if (!(cond)) vp::violation((key), (detail)); \
  } while (0)

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull) * 0xD6E8FEB86659FD93ull);
  return r.u64();
}

inline std::string arg(const std::string& k, const std::string& def = "") {
  auto it = ctx().args.find(k);
  return it == ctx().args.end() ? def : it->second;
}

// Runs fn in a child process; returns the wait status. Output of the child's
// fd is returned in *text. Only for single-threaded moments.
// A child forked from a process with threads can stall on a lock another
// thread held; a child that ran into its limit is therefore repeated once.
inline int in_child(const std::function<void(int)>& fn, std::string* text = nullptr,
                    int limit_s = 60) {
  int st = 0;
  for (int attempt = 0; attempt < 2; ++attempt) {
    int fds[2];
    if (pipe(fds)) harness_error("pipe");
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) harness_error("fork");
    if (p == 0) {
      close(fds[0]);
      signal(SIGALRM, SIG_DFL);
      alarm(limit_s);
      fn(fds[1]);
      _exit(0);
    }
    close(fds[1]);
    std::string got;
    char b[65536];
    ssize_t n;
    while ((n = read(fds[0], b, sizeof b)) > 0) got.append(b, n);
    close(fds[0]);
    while (waitpid(p, &st, 0) < 0) {}
    if (text) *text = got;
    if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) break;
  }
  return st;
}

// Runs this very program again as "--tool NAME ARGS..." (see tool_main).
inline int run_tool(const std::string& name, const std::vector<std::string>& args, int limit_s = 60) {
  int st = 0;
  for (int attempt = 0; attempt < 2; ++attempt) {
    std::vector<std::string> all = {"prog", "--tool", name};
    all.insert(all.end(), args.begin(), args.end());
    std::vector<char*> av;
    for (auto& s : all) av.push_back(&s[0]);
    av.push_back(nullptr);
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) harness_error("fork");
    if (p == 0) {
      signal(SIGALRM, SIG_DFL);
      alarm(limit_s);
      execv("/proc/self/exe", av.data());
      _exit(71);
    }
    while (waitpid(p, &st, 0) < 0) {}
    if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)) break;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 71) harness_error("exec");
  return st;
}

// Serves run_tool; the tool's output is thrown away unless it is an error report.
inline void tool_main(int argc, char** argv, const std::map<std::string, int (*)(int, char**)>& tools) {
  if (argc < 3 || std::string(argv[1]) != "--tool") return;
  auto it = tools.find(argv[2]);
  if (it == tools.end() || !freopen("/dev/null", "w", stdout)) _exit(71);
  const int rc = it->second(argc - 2, argv + 2);
  fflush(nullptr);
  _exit(rc == 0 ? 0 : 1);
}

inline int run(int argc, char** argv, const std::function<void(long, Rng&)>& one) {
  Ctx& c = ctx();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") c.cases = atol(v.c_str());
    else if (k == "--case") c.only = atol(v.c_str());
    else if (k == "--shard") c.shard = atoi(v.c_str());
    else if (k == "--shards") c.shards = atoi(v.c_str());
    else if (k == "--tier") c.thorough = (v == "thorough");
    else if (k == "--out") c.out = v;
    else if (k == "--scratch") c.scratch = v;
    else c.args[k.substr(2)] = v;
  }
  c.log = fopen(c.out.c_str(), "w");
  if (!c.log) { perror("out"); return 70; }
  int fd = open((c.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(long))) return 70;
  c.current = static_cast<long*>(mmap(nullptr, sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  *c.current = -1;
  if (chdir(c.scratch.c_str())) { perror("scratch"); return 70; }
  for (long k = 0; k < c.cases; ++k) {
    if (c.only >= 0 && k != c.only) continue;
    if (c.only < 0 && k % c.shards != c.shard) continue;
    *c.current = k;
    Rng r(mix(c.seed, k));
    one(k, r);
  }
  std::string covers, counters, samples;
  for (uint64_t h : c.covers) covers += fmt("%s\"%016lx\"", covers.empty() ? "" : ",", h);
  for (auto& kv : c.counters) counters += fmt("%s\"%s\":%ld", counters.empty() ? "" : ",", esc(kv.first).c_str(), kv.second);
  if (!c.ranges.empty()) {
    std::string t;
    for (auto& k : c.ranges) t += (t.empty() ? "" : "; ") + fmt("%s: %.4g .. %.4g (%ld)", k.first.c_str(), k.second[0], k.second[1], long(k.second[2]));
    c.samples.insert(c.samples.begin(), t);
  }
  for (auto& s : c.samples) samples += (samples.empty() ? "\"" : ",\"") + esc(s) + "\"";
  fprintf(c.log, "{\"type\":\"done\",\"evaluations\":%ld,\"covers\":[%s],\"counters\":{%s},\"samples\":[%s]}\n",
          c.evaluations.load(), covers.c_str(), counters.c_str(), samples.c_str());
  fclose(c.log);
  fflush(nullptr);
  return 0;
}

}  // namespace vp

#endif  // VP_H_
