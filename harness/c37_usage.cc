// C37: the resource log of the built-in profiler.
#include <dirent.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include <atomic>
#include <chrono>
#include <fstream>
#include <thread>

#include "common/performance/process_info.h"
#include "vp.h"

using namespace vp;
using static_map::common::performance::ProcessProfiler;

struct Look {
  double t, total, own;
  long rss, vm;
  int lines;  // of the log so far
};

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// What the kernel says right now; false if it cannot be read.
static bool look(Look* out) {
  FILE* f = fopen("/proc/stat", "r");
  if (!f) return false;
  double u, n, s, i;
  const bool a = fscanf(f, "cpu %lf %lf %lf %lf", &u, &n, &s, &i) == 4;
  fclose(f);
  char b[2048];
  f = fopen("/proc/self/stat", "r");
  if (!f) return false;
  const size_t len = fread(b, 1, sizeof b - 1, f);
  fclose(f);
  b[len] = 0;
  const char* q = strrchr(b, ')');
  unsigned long ut, st;
  long cu, cs;
  const bool c = q && sscanf(q + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %ld %ld", &ut, &st, &cu, &cs) == 4;
  f = fopen("/proc/self/status", "r");
  if (!f) return false;
  out->rss = out->vm = -1;
  while (fgets(b, sizeof b, f)) {
    sscanf(b, "VmRSS: %ld", &out->rss);
    sscanf(b, "VmSize: %ld", &out->vm);
  }
  fclose(f);
  out->t = now();
  out->total = u + n + s + i;
  out->own = double(ut) + st + cu + cs;
  return a && c && out->rss >= 0 && out->vm >= 0;
}

static void files_under(const std::string& dir, std::vector<std::string>* out) {
  DIR* d = opendir(dir.c_str());
  if (!d) return;
  while (dirent* e = readdir(d)) {
    const std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    struct stat st;
    if (stat((dir + "/" + n).c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) files_under(dir + "/" + n, out);
    else out->push_back(dir + "/" + n);
  }
  closedir(d);
}

struct Plan {
  std::string name, home;
  int user, kernel, offspring, grow_mb;
  double seconds;
};

static int lines_so_far(const std::string& home) {
  std::vector<std::string> logs;
  files_under(home, &logs);
  if (logs.empty()) return 0;
  std::ifstream in(logs[0]);
  return std::count(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>(), '\n');
}

static void burn(double until) {
  volatile double x = 1;
  while (now() < until) for (int i = 0; i < 20000; ++i) x = x * 1.0000001 + 1e-9;
}

// Runs in a process of its own; prints one line per look.
static void measured(const Plan& p, int fd) {
  prctl(PR_SET_NAME, p.name.c_str());
  std::vector<Look> seen;
  seen.reserve(4000);
  const double end = now() + p.seconds;
  std::atomic<bool> stop(false);
  std::vector<std::thread> work;
  std::vector<std::vector<char>> hold;
  {
    ProcessProfiler profiler;
    for (int i = 0; i < p.user; ++i) work.emplace_back([&] { burn(end); });
    for (int i = 0; i < p.kernel; ++i)
      work.emplace_back([&] {
        std::vector<char> b(1 << 20);
        int z = open("/dev/zero", O_RDONLY);
        while (!stop) if (read(z, b.data(), b.size()) < 0) break;
        close(z);
      });
    if (p.offspring)
      work.emplace_back([&] {
        while (!stop) {
          pid_t c = fork();
          if (c == 0) { burn(now() + 0.12); _exit(0); }
          int st;
          if (c > 0) waitpid(c, &st, 0);
        }
      });
    double next = now();
    while (now() < end) {
      Look l;
      if (!look(&l)) _exit(70);
      l.lines = lines_so_far(p.home);
      seen.push_back(l);
      if (p.grow_mb && now() > next && hold.size() < 60) {
        hold.emplace_back(size_t(p.grow_mb) << 20, 1);
        next += 0.1;
      }
      usleep(8000);
    }
    stop = true;
    for (auto& t : work) t.join();
    // the profiler still finishes its last interval
    for (int i = 0; i < 60; ++i) {
      Look l;
      if (!look(&l)) _exit(70);
      l.lines = lines_so_far(p.home);
      seen.push_back(l);
      usleep(20000);
    }
  }
  std::string text;
  for (auto& l : seen) text += fmt("%.4f %.0f %.0f %ld %ld %d\n", l.t, l.total, l.own, l.rss, l.vm, l.lines);
  for (size_t k = 0; k < text.size();) {
    const ssize_t n = write(fd, text.data() + k, text.size() - k);
    if (n <= 0) _exit(70);
    k += n;
  }
}

// Runs one plan and compares its log; the first disagreement is put out.
static void judge(const Plan& p, const std::string& d, std::string* key, std::string* why) {
  auto bad = [&](const char* k, const std::string& w) { if (key->empty()) { *key = k; *why = " " + w; } };
  mkdir(p.home.c_str(), 0755);
  std::string text;
  const int st = in_child([&](int fd) { setenv("HOME", p.home.c_str(), 1); measured(p, fd); }, &text, 90);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 70) harness_error("cannot read /proc");
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return bad("profiler:stops-the-program", fmt("status %d", st));
  std::vector<Look> seen;
  {
    std::istringstream in(text);
    Look l;
    while (in >> l.t >> l.total >> l.own >> l.rss >> l.vm >> l.lines) seen.push_back(l);
  }
  std::vector<std::string> logs;
  files_under(p.home, &logs);
  if (seen.size() < 10) harness_error("too few looks");
  eval();
  if (logs.size() != 1) return bad("log:one-file", fmt("%zu files", logs.size()));
  const std::string base = logs[0].substr(logs[0].rfind('/') + 1), word = p.name.substr(0, p.name.find(' '));
  eval();
  if (base.compare(0, word.size(), word)) bad("log:named-after-process", base);
  std::ifstream in(logs[0]);
  std::string line;
  int lines = 0;
  size_t from = 0;
  while (std::getline(in, line)) {
    double cpu;
    long rss, vm;
    char tail;
    eval();
    if (sscanf(line.c_str(), "%lf%%, %ld, %ld%c", &cpu, &rss, &vm, &tail) != 3) { bad("log:line-format", "'" + line + "'"); continue; }
    ++lines;
    // memory: as seen at some moment, in order
    bool found = false;
    for (size_t k = from; k < seen.size() && !found; ++k)
      if (std::labs(rss - seen[k].rss) <= 3000 + 2 * 1024 * p.grow_mb && std::labs(vm - seen[k].vm) <= 3000 + 2 * 1024 * p.grow_mb) { found = true; from = k; }
    eval();
    if (!found) bad("log:memory", "line '" + line + "'");
    // share of the machine: as between the two moments at which this line and
    // the one before it appeared, if that was seen
    double begin = seen[0].t, end = -1;
    for (auto& l : seen) {
      if (l.lines < lines - 1) begin = l.t;
      if (end < 0 && l.lines >= lines) end = l.t;
    }
    bool ok = false;
    double lo = 1e9, hi = -1;
    for (size_t i = 0; i < seen.size() && !ok; ++i) {
      if (end >= 0 && std::fabs(seen[i].t - begin) > 0.25) continue;
      for (size_t j = i + 1; j < seen.size(); ++j) {
        const double w = seen[j].t - seen[i].t;
        if (w > 2.2) break;
        if (w < 0.3 || seen[j].total <= seen[i].total) continue;
        if (end >= 0 && std::fabs(seen[j].t - end) > 0.25) continue;
        const double share = 100 * (seen[j].own - seen[i].own) / (seen[j].total - seen[i].total);
        lo = std::min(lo, share);
        hi = std::max(hi, share);
        if (std::fabs(share - cpu) <= 0.6 + 0.03 * share) { ok = true; break; }
      }
    }
    eval();
    if (hi < 0) { count("lines without a window"); continue; }
    if (!ok) bad("log:processor-share", "line '" + line + fmt("', share of the machine was %.1f to %.1f %%", lo, hi));
    if (end >= 0) count("lines seen appearing");
  }
  eval();
  if (lines < 1) bad("log:empty", "");
  count("log lines", lines);
  count("looks", seen.size());
  unlink(logs[0].c_str());
}

static void one(long id, Rng& r) {
  setenv("VERIF_SLEEP_MS", "400", 1);
  unsetenv("VERIF_NO_PASSWD");
  const int kind = r.i(0, 9);
  Plan p;
  const char* names[] = {"mapper", "static mapping", "a b c d e", "odd) name", "(x)", "ros_node 1 2 3 4"};
  const int which = r.i(0, 5);
  p.name = names[which];
  p.home = fmt("home%ld", id);
  p.user = r.p(0.7) ? r.i(1, 3) : 0;
  p.kernel = r.p(0.5);
  p.offspring = r.p(0.4);
  p.grow_mb = r.p(0.6) ? r.i(1, 8) : 0;
  p.seconds = r.d(1.5, 2.8);
  const std::string d = fmt("process '%s', %d computing and %d reading threads, %s, growing %d MB per 0.1 s", p.name.c_str(), p.user, p.kernel,
                            p.offspring ? "child processes" : "no child processes", p.grow_mb);
  if (kind == 0) {  // nowhere to write
    const bool nobody = r.p(0.5);
    const int st = in_child([&](int) {
      if (nobody) setenv("VERIF_NO_PASSWD", "1", 1);
      else setenv("HOME", "missing/place", 1);
      { ProcessProfiler profiler; usleep(300000); }
    });
    VP_REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "profiler:stops-the-program", nobody ? "user without an account entry" : "home directory does not exist");
    cover(fmt("nowhere %d", nobody));
    return;
  }
  std::string key, why;
  for (int attempt = 0; attempt < 2; ++attempt) {
    key.clear();
    why.clear();
    judge(p, d, &key, &why);
    if (key.empty()) break;
    count("repeated");
  }
  VP_REQUIRE(key.empty(), key, d + why);
  cover(fmt("%d %d %d %d %d", which, p.user, p.kernel, p.offspring, p.grow_mb > 0));
  if (id == 0) sample(d);
}

int main(int argc, char** argv) { return run(argc, argv, one); }
