// C31: profiling timers under concurrency; the report is read back.
#include <chrono>
#include <thread>

#include "common/performance/simple_prof.h"
#include "vp.h"

extern "C" void vp_jitter(unsigned long) __attribute__((weak));

using static_map::common::performance::SimpleTimer;
using static_map::common::performance::TimerManager;
using vp::Rng;
using vp::fmt;

namespace {
struct Row {
  std::string name;
  long times;
  std::string avg, sum, min, max;
};
std::string trim(const std::string& s) {
  size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
// rows of the report: six columns separated by bars
std::vector<Row> parse(const std::string& text) {
  std::vector<Row> rows;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    std::vector<std::string> c;
    std::istringstream ls(line);
    std::string f;
    while (std::getline(ls, f, '|')) c.push_back(trim(f));
    if (c.size() != 6 || c[1].empty() || c[1].find_first_not_of("0123456789") != std::string::npos) continue;
    rows.push_back({c[0], atol(c[1].c_str()), c[2], c[3], c[4], c[5]});
  }
  return rows;
}
// lower and upper bound (in us) of a printed value
bool bounds(const std::string& s, double unit, double* lo, double* hi) {
  if (s == "<1" || s == "0") { *lo = 0; *hi = unit; return true; }
  char* e;
  double v = strtod(s.c_str(), &e);
  if (*e || s.empty()) return false;
  *lo = v * unit;
  *hi = (v + 1) * unit;
  return true;
}

struct Block {
  std::string name;
  int threads, runs;
};

void one(long k, Rng& r) {
  // written durations come from real timers (kind 0) or are injected as the
  // timers would (kind 1), so that long runs need no long waiting
  const int kind = r.p(0.6) ? 0 : 1;
  const int unit = r.i(0, 2);
  const bool merge = r.p(0.5);
  const double us[] = {1e6, 1e3, 1};
  const int nb = r.i(1, 4);
  const int nt = r.i(1, 8);
  std::vector<std::string> names;
  for (int i = 0; i < nb; ++i) names.push_back(fmt("block_%c%ld", 'a' + i, r.i(0, 99)));
  // plan: per thread the list of (block, nested block or -1, value)
  struct Step { int a, b; int64_t v; };
  std::vector<std::vector<Step>> plan(nt);
  std::vector<std::vector<std::vector<int64_t>>> vals(nb, std::vector<std::vector<int64_t>>(nt));
  for (int t = 0; t < nt; ++t) {
    int n = r.i(1, vp::ctx().thorough ? 200 : 60);
    for (int i = 0; i < n; ++i) {
      Step s{int(r.i(0, nb - 1)), r.p(0.3) ? int(r.i(0, nb - 1)) : -1, 0};
      switch (r.i(0, 3)) {
        case 0: s.v = r.i(0, 3); break;
        case 1: s.v = r.i(0, 3000); break;
        case 2: s.v = r.i(0, 5000000); break;
        default: s.v = r.p(0.1) ? r.i(0, 7200000000ll) : r.i(0, 200); break;
      }
      plan[t].push_back(s);
      vals[s.a][t].push_back(s.v);
      if (kind == 0 && s.b >= 0) vals[s.b][t].push_back(s.v);
    }
  }
  const bool open_at_exit = r.p(0.15);  // the program ends inside of a block
  const bool sequential_threads = r.p(0.2);
  std::string text;
  const uint64_t jit = r.u64() | 1;
  const int64_t wait_us = r.i(0, 400);
  auto t0 = std::chrono::steady_clock::now();
  int st = vp::in_child([&](int fd) {
    dup2(fd, 1);
    close(fd);
    if (vp_jitter) vp_jitter(jit);
    // nobody touched the manager yet: the threads may all be first
    std::atomic<int> ready{0};
    auto work = [&](int t) {
      ++ready;
      while (!sequential_threads && ready < nt) std::this_thread::yield();
      if (t == 0) {
        if (unit == 0) { SIMPLE_PROF_USE_SECOND }
        if (unit == 1) { SIMPLE_PROF_USE_MS }
        if (merge) { SIMPLE_PROF_MERGE_OUTPUT }
      }
      for (const Step& s : plan[t]) {
        if (kind == 0) {
          REGISTER_BLOCK(names[s.a]);
          if (s.b >= 0) {
            REGISTER_BLOCK(names[s.b]);
          }
          if (s.v == 1) std::this_thread::sleep_for(std::chrono::microseconds(wait_us));
        } else {
          TimerManager::Instance()->RegisterTimer(names[s.a])->push_back(s.v);
        }
      }
    };
    std::vector<std::thread> ts;
    if (sequential_threads) {
      for (int t = 0; t < nt; ++t) { std::thread x(work, t); x.join(); }
    } else {
      for (int t = 0; t < nt; ++t) ts.emplace_back(work, t);
      for (auto& t : ts) t.join();
    }
    if (vp_jitter) vp_jitter(0);
    if (open_at_exit) {
      REGISTER_BLOCK("open_block");
      exit(0);
    }
    exit(0);
  }, &text, 100);
  const double elapsed_us = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() * 1e6;
  const std::string d = fmt("%s, unit %d, %s, %d threads%s, %d blocks%s", kind ? "injected" : "timed", unit, merge ? "merged" : "per thread", nt, sequential_threads ? " one by one" : "", nb, open_at_exit ? ", ended in a block" : "");
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { vp::violation("prof:hang", d); return; }
  VP_REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "prof:program-ended-abnormally", d + fmt(" status 0x%x; report: %s", st, text.substr(0, 300).c_str()));
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) return;
  auto rows = parse(text);
  vp::cover(fmt("%d %d %d %d %d %d %d", kind, unit, merge, nt, nb, open_at_exit, sequential_threads));
  // an open block keeps the report back: the program just has to end normally
  if (open_at_exit && rows.empty()) return;
  for (int b = 0; b < nb; ++b) {
    // names may repeat: gather what belongs to this name
    bool first = true;
    for (int c = 0; c < b; ++c) first = first && names[c] != names[b];
    if (!first) continue;
    long want = 0;
    std::multiset<long> want_rows;
    double sum = 0, mn = 1e300, mx = 0;
    std::map<int, std::vector<double>> per;
    for (int t = 0; t < nt; ++t) {
      long n = 0;
      for (int c = b; c < nb; ++c) {
        if (names[c] != names[b]) continue;
        for (int64_t v : vals[c][t]) { ++n; sum += v; mn = std::min<double>(mn, v); mx = std::max<double>(mx, v); per[t].push_back(v); }
      }
      want += n;
      if (n) want_rows.insert(n);
    }
    long got = 0;
    std::multiset<long> got_rows;
    double got_sum_lo = 0, got_sum_hi = 0;
    for (auto& row : rows) {
      if (row.name != names[b]) continue;
      got += row.times;
      got_rows.insert(row.times);
      double al, ah, sl, sh, nl, nh, xl, xh;
      bool ok = bounds(row.avg, us[unit], &al, &ah) && bounds(row.sum, us[unit], &sl, &sh) && bounds(row.min, us[unit], &nl, &nh) && bounds(row.max, us[unit], &xl, &xh);
      const std::string rd = d + fmt(" %s: times %ld avg %s sum %s min %s max %s", row.name.c_str(), row.times, row.avg.c_str(), row.sum.c_str(), row.min.c_str(), row.max.c_str());
      VP_REQUIRE(ok, "prof:unreadable-value", rd);
      if (!ok) continue;
      const double u = us[unit];
      // avg is itself rounded down to a microsecond
      VP_REQUIRE(nl < xh && nl <= ah + 1 && al <= xh, "prof:min-avg-max-order", rd);
      VP_REQUIRE(row.times * al <= sh + u && row.times * (ah + 1) + u >= sl, "prof:sum-is-not-times-avg", rd);
      VP_REQUIRE(sl <= row.times * xh && sh + u >= row.times * nl, "prof:sum-outside-min-max", rd);
      VP_REQUIRE(row.times != 1 || (row.min == row.max && row.sum == row.max), "prof:single-run-differs", rd);
      got_sum_lo += sl; got_sum_hi += sh;
      if (kind == 0)
        VP_REQUIRE(xl <= elapsed_us * 1.5 + 1e6, "prof:longer-than-the-program", rd + fmt(" program %g us", elapsed_us));
      if (kind == 1 && merge) {
        VP_REQUIRE(nl <= mn && mn <= nh && xl <= mx && mx <= xh, "prof:wrong-min-max", rd + fmt(" expected %g %g", mn, mx));
      }
    }
    VP_REQUIRE(got == want, "prof:executions-miscounted", d + fmt(" %s: %ld reported, %ld executed", names[b].c_str(), got, want));
    if (merge) VP_REQUIRE(got_rows.size() == (want ? 1u : 0u), "prof:merged-rows", d + fmt(" %s: %zu rows", names[b].c_str(), got_rows.size()));
    // a finished thread's identity may be used again by a later one
    if (!merge && !sequential_threads && want_rows.size() == size_t(nt)) {
      bool possible = got_rows.size() <= want_rows.size();
      VP_REQUIRE(possible, "prof:per-thread-rows", d);
    }
    if (kind == 1)
      VP_REQUIRE(got_sum_lo <= sum && sum <= got_sum_hi + 1, "prof:wrong-sum", d + fmt(" %s: reported between %.0f and %.0f us, expected %.0f", names[b].c_str(), got_sum_lo, got_sum_hi, sum));
    if (kind == 0 && !merge) VP_REQUIRE(got_sum_lo <= elapsed_us * nt * 2 + 1e6, "prof:wrong-sum", d);
    vp::count("executions", want);
  }
  vp::sample(d + fmt(": %zu rows", rows.size()));
  // a timed wait must not be shorter than it was
  if (k % 8 == 0) {
    std::string out;
    const int ms = r.i(3, 12);
    int s2 = vp::in_child([&](int fd) {
      dup2(fd, 1);
      close(fd);
      for (int i = 0; i < 3; ++i) {
        REGISTER_BLOCK("waiting");
        std::this_thread::sleep_for(std::chrono::milliseconds(ms));
      }
      exit(0);
    }, &out, 100);
    auto rr = parse(out);
    double nl, nh, sl, sh;
    bool ok = WIFEXITED(s2) && WEXITSTATUS(s2) == 0 && rr.size() == 1 && bounds(rr[0].min, 1, &nl, &nh) && bounds(rr[0].sum, 1, &sl, &sh);
    VP_REQUIRE(ok && rr[0].times == 3 && nh >= ms * 1000 && sh >= 3 * ms * 1000 && sl < 60e6, "prof:wrong-duration", fmt("3 x %d ms: %s", ms, out.substr(0, 600).c_str()));
  }
}
}  // namespace

int main(int argc, char** argv) { return vp::run(argc, argv, one); }
