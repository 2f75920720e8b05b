// C19: the worker pool runs every accepted task exactly once.
#include <chrono>
#include <memory>
#include <thread>

#include "common/simple_thread_pool.h"
#include "vp.h"

extern "C" void vp_jitter(unsigned long) __attribute__((weak));

using static_map::common::ThreadPool;
using vp::Rng;
using vp::fmt;

namespace {
struct Boom : std::exception {
  int id;
  explicit Boom(int i) : id(i) {}
};

void busy(uint64_t v) {
  switch (v % 8) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(v / 8 % 200)); break;
    case 2: for (volatile int i = 0; i < int(v / 8 % 3000); ++i) {} break;
    default: break;
  }
}

struct Board {
  explicit Board(int n) : runs(n) { for (auto& r : runs) r = 0; }
  std::vector<std::atomic<int>> runs;
  std::atomic<int> now{0}, peak{0};
  std::atomic<int> finished{0};
  std::mutex mu;
  std::set<std::thread::id> ids;
  std::vector<int> order;
  void enter(int id) {
    ++runs[id];
    int n = ++now;
    int p = peak.load();
    while (n > p && !peak.compare_exchange_weak(p, n)) {}
    std::lock_guard<std::mutex> l(mu);
    ids.insert(std::this_thread::get_id());
    order.push_back(id);
  }
  void leave() { --now; ++finished; }
};

// many producers, results and exceptions, destruction with work left
void stress(Rng& r) {
  const int threads = r.i(1, 8), producers = r.i(1, 6);
  const int per = r.i(1, vp::ctx().thorough ? 300 : 120);
  const int n = producers * per;
  const bool collect_first = r.p(0.4);
  const bool early = r.p(0.5);  // destruction starts right after submission
  Board b(n);
  std::vector<std::future<int>> fut(n);
  std::vector<uint64_t> dur(n);
  std::vector<char> fail(n);
  for (int i = 0; i < n; ++i) { dur[i] = r.u64(); fail[i] = r.p(0.15); }
  const std::string d = fmt("threads %d producers %d tasks %d%s%s", threads, producers, n, collect_first ? " collected first" : "", early ? " early destruction" : "");
  {
    std::unique_ptr<ThreadPool> pool(new ThreadPool(threads));
    if (r.p(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(300));
    std::vector<std::thread> ps;
    for (int p = 0; p < producers; ++p) {
      ps.emplace_back([&, p] {
        for (int k = 0; k < per; ++k) {
          const int id = p * per + k;
          int arg = id * 3;
          fut[id] = pool->enqueue([&b, &dur, &fail](int i, int a) {
            b.enter(i);
            busy(dur[i]);
            b.leave();
            if (fail[i]) throw Boom(i);
            return a + 7;
          }, id, arg);
          arg = -1;
          busy(dur[id] >> 20);
        }
      });
    }
    for (auto& t : ps) t.join();
    auto collect = [&](const char* when) {
      int bad = 0, notready = 0;
      for (int i = 0; i < n; ++i) {
        if (!fut[i].valid()) { ++bad; continue; }
        if (std::string(when) == "after" && fut[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) { ++notready; continue; }
        try {
          int v = fut[i].get();
          if (v != i * 3 + 7 || fail[i]) ++bad;
        } catch (const Boom& e) {
          if (!fail[i] || e.id != i) ++bad;
        } catch (...) {
          ++bad;
        }
      }
      vp::eval(n);
      VP_REQUIRE(notready == 0, "pool:future-not-ready-after-destruction", d + fmt(" %d futures", notready));
      VP_REQUIRE(bad == 0, "pool:wrong-result", d + fmt(" %d futures", bad));
    };
    if (collect_first) collect("before");
    else if (!early) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    pool.reset();
    VP_REQUIRE(b.finished == n, "pool:task-unfinished-after-destruction", d + fmt(" %d finished", b.finished.load()));
    if (!collect_first) collect("after");
  }
  int wrong = 0;
  for (auto& x : b.runs) wrong += x != 1;
  vp::eval(n);
  VP_REQUIRE(wrong == 0, "pool:task-not-exactly-once", d + fmt(" %d tasks", wrong));
  VP_REQUIRE(b.peak <= threads && int(b.ids.size()) <= threads, "pool:too-many-threads", d + fmt(" peak %d ids %zu", b.peak.load(), b.ids.size()));
  VP_REQUIRE(!b.ids.count(std::this_thread::get_id()), "pool:task-ran-on-caller", d);
  vp::cover(fmt("stress %d %d %d %d %d", threads, producers, b.peak.load(), collect_first, early));
  vp::count("tasks", n);
  vp::sample(d + fmt(": peak of %d concurrent tasks on %zu threads", b.peak.load(), b.ids.size()));
}

// one thread: submission order
void ordered(Rng& r) {
  const int n = r.i(2, 200);
  Board b(n);
  {
    ThreadPool pool(1);
    for (int i = 0; i < n; ++i) {
      uint64_t v = r.u64();
      pool.enqueue([&b, i, v] { b.enter(i); busy(v); b.leave(); });
      if (r.p(0.1)) busy(r.u64());
    }
  }
  bool ok = int(b.order.size()) == n;
  for (int i = 0; ok && i < n; ++i) ok = b.order[i] == i;
  VP_REQUIRE(ok && b.peak == 1, "pool:single-thread-order", fmt("%d tasks, ran %zu, peak %d", n, b.order.size(), b.peak.load()));
  vp::cover(fmt("order %d", n / 20));
}

// all configured threads work at the same time
void rendezvous(Rng& r) {
  const int threads = r.i(2, 8), rounds = r.i(1, 4);
  ThreadPool pool(threads);
  for (int k = 0; k < rounds; ++k) {
    auto here = std::make_shared<std::atomic<int>>(0);
    auto stop = std::make_shared<std::atomic<bool>>(false);
    std::vector<std::future<bool>> f;
    for (int i = 0; i < threads; ++i)
      f.push_back(pool.enqueue([here, stop, threads] {
        ++*here;
        while (*here < threads && !*stop) std::this_thread::yield();
        return *here == threads;
      }));
    bool ok = true;
    for (auto& x : f)
      if (x.wait_for(std::chrono::seconds(40)) != std::future_status::ready) { ok = false; break; }
    *stop = true;
    for (auto& x : f) ok = x.get() && ok;
    VP_REQUIRE(ok, "pool:threads-idle-while-tasks-wait", fmt("%d threads, %d tasks started", threads, here->load()));
    if (!ok) return;
  }
  vp::cover(fmt("rendezvous %d %d", threads, rounds));
}

// tasks submitting tasks, also while the pool is being destroyed
void nested(Rng& r) {
  const int threads = r.i(1, 6), roots = r.i(1, 30), depth = r.i(1, 5);
  std::atomic<int> accepted{0}, ran{0}, refused{0}, other{0};
  std::unique_ptr<ThreadPool> pool(new ThreadPool(threads));
  ThreadPool* p = pool.get();
  std::vector<uint64_t> rnd(roots * (depth + 1));
  for (auto& v : rnd) v = r.u64();
  std::function<void(int, int)> task = [&](int root, int left) {
    busy(rnd[root * (depth + 1) + left]);
    if (left > 0) {
      // counted before: the child may already run when enqueue returns
      ++accepted;
      try {
        p->enqueue(task, root, left - 1);
      } catch (const std::runtime_error&) {
        --accepted;
        ++refused;
      } catch (...) {
        --accepted;
        ++other;
      }
    }
    ++ran;
  };
  for (int i = 0; i < roots; ++i) { ++accepted; p->enqueue(task, i, depth); }
  if (r.p(0.5)) busy(r.u64());
  pool.reset();
  const std::string d = fmt("threads %d roots %d depth %d accepted %d refused %d ran %d", threads, roots, depth, accepted.load(), refused.load(), ran.load());
  VP_REQUIRE(accepted == ran, "pool:nested-task-lost", d);
  VP_REQUIRE(other == 0, "pool:unexpected-exception", d);
  VP_REQUIRE(ran >= roots, "pool:nested-task-lost", d);
  vp::cover(fmt("nested %d %d %d", threads, depth, refused > 0));
  vp::count("refused while stopping", refused);
}

// kinds of callables, arguments and results
int twice(int v) { return 2 * v; }
struct Acc {
  int base;
  int add(int v) const { return base + v; }
};
void kinds(Rng& r) {
  std::unique_ptr<ThreadPool> pool(new ThreadPool(r.i(1, 4)));
  int v = r.i(-1000, 1000);
  Acc acc{int(r.i(0, 50))};
  std::string text(r.i(0, 100), 'x');
  int target = 0;
  auto token = std::make_shared<int>(1);
  auto f1 = pool->enqueue(twice, v);
  auto f2 = pool->enqueue(&Acc::add, acc, v);
  auto f3 = pool->enqueue([](std::string s) { return s + "!"; }, text);
  auto f4 = pool->enqueue([](int& t) { t = 5; }, std::ref(target));
  auto f5 = pool->enqueue([v] { return std::unique_ptr<int>(new int(v)); });
  auto f6 = pool->enqueue([token] { return *token; });
  auto f7 = pool->enqueue([]() -> int { throw std::out_of_range("x"); });
  acc.base = -100000;
  std::string want = text + "!";
  text = "changed";
  bool late = r.p(0.5);
  if (late) pool.reset();
  VP_REQUIRE(f1.get() == 2 * v, "pool:result", "function");
  VP_REQUIRE(f2.get() >= v && true, "pool:result", "member");
  VP_REQUIRE(f3.get() == want, "pool:result", "string argument");
  f4.get();
  VP_REQUIRE(target == 5, "pool:result", "reference argument");
  VP_REQUIRE(*f5.get() == v, "pool:result", "move-only result");
  VP_REQUIRE(f6.get() == 1, "pool:result", "shared capture");
  bool thrown = false;
  try { f7.get(); } catch (const std::out_of_range&) { thrown = true; }
  VP_REQUIRE(thrown, "pool:exception-lost", "out_of_range");
  // dropped futures must not stop the tasks, nor keep their captures
  if (!late) {
    std::atomic<int> c{0};
    int k = r.i(1, 40);
    for (int i = 0; i < k; ++i) pool->enqueue([&c, token] { ++c; });
    pool.reset();
    VP_REQUIRE(c == k, "pool:task-not-exactly-once", fmt("dropped futures: %d of %d", c.load(), k));
  }
  { ThreadPool idle(r.i(1, 8)); if (r.p(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(100)); }
  vp::eval();
  f6 = std::future<int>();
  VP_REQUIRE(token.use_count() == 1, "pool:capture-kept-alive", fmt("%ld", token.use_count()));
  vp::cover(fmt("kinds %d", late));
}
}  // namespace

int main(int argc, char** argv) {
  return vp::run(argc, argv, [](long k, Rng& r) {
    if (vp_jitter) vp_jitter(r.p(0.7) ? (r.u64() | 1) : 0);
    switch (k % 8) {
      case 0: case 1: case 2: stress(r); break;
      case 3: ordered(r); break;
      case 4: rendezvous(r); break;
      case 5: case 6: nested(r); break;
      default: kinds(r);
    }
    if (vp_jitter) vp_jitter(0);
  });
}
