// A minimal OpenMP runtime on std::thread/pthread primitives. Used instead of
// libgomp in TSan builds, so that the sanitizer sees the fork/join edges, and
// in schedule-perturbation builds, so that the number of threads and the
// interleaving can be chosen by the harness.
#include <pthread.h>
#include <sched.h>

#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <mutex>
#include <thread>
#include <vector>

#define HIDDEN __attribute__((visibility("hidden")))

namespace {
struct Team {
  int n = 1;
  std::mutex mu;
  std::condition_variable cv;
  int waiting = 0;
  unsigned long gen = 0;
  // work sharing
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool ws_init = false;
  int ws_done = 0;
  int single_taken = 0;
};
struct Tls {
  Team* team;
  int id;
  int level;
};
thread_local Tls tls = {nullptr, 0, 0};
std::atomic<int> g_forced{0};
std::atomic<unsigned long> g_seed{0};
std::mutex g_critical;
std::mutex g_atomic;
int g_default = 4;
}  // namespace

extern "C" {
// harness controls
HIDDEN void vp_omp_force_threads(int n) { g_forced = n; }
HIDDEN void vp_omp_seed(unsigned long s) { g_seed = s; }

static void run_team(void (*fn)(void*), void* data, unsigned num_threads, bool ws, long start,
                     long end, long incr, long chunk) {
  int n = num_threads ? static_cast<int>(num_threads) : g_default;
  if (g_forced.load() > 0) n = g_forced.load();
  if (tls.level > 0) n = 1;
  Team team;
  team.n = n;
  if (ws) {
    team.ws_init = true;
    team.next = start; team.end = end; team.incr = incr; team.chunk = chunk > 0 ? chunk : 1;
  }
  Tls saved = tls;
  std::vector<std::thread> ts;
  const unsigned long seed = g_seed.load();
  for (int i = 1; i < n; ++i) {
    ts.emplace_back([&team, fn, data, i, seed] {
      tls = {&team, i, 1};
      if (seed) {
        unsigned spins = (seed * 2654435761u + i * 40503u) % 64;
        for (unsigned k = 0; k < spins; ++k) sched_yield();
      }
      fn(data);
      tls = {nullptr, 0, 0};
    });
  }
  tls = {&team, 0, saved.level + 1};
  fn(data);
  tls = saved;
  for (auto& t : ts) t.join();
}
HIDDEN void GOMP_parallel(void (*fn)(void*), void* data, unsigned num_threads, unsigned) {
  run_team(fn, data, num_threads, false, 0, 0, 1, 1);
}
#define PAR_LOOP(name)                                                                    \
  HIDDEN void name(void (*fn)(void*), void* data, unsigned nt, long a, long b, long c,    \
                   long d, unsigned) {                                                    \
    run_team(fn, data, nt, true, a, b, c, d);                                             \
  }
PAR_LOOP(GOMP_parallel_loop_dynamic)
PAR_LOOP(GOMP_parallel_loop_guided)
PAR_LOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PAR_LOOP(GOMP_parallel_loop_nonmonotonic_guided)
HIDDEN void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned nt, long a, long b,
                                       long c, unsigned) {
  run_team(fn, data, nt, true, a, b, c, 1);
}
HIDDEN void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data,
                                                          unsigned nt, long a, long b, long c,
                                                          unsigned) {
  run_team(fn, data, nt, true, a, b, c, 1);
}
HIDDEN int omp_get_thread_num() { return tls.id; }
HIDDEN int omp_get_num_threads() { return tls.team ? tls.team->n : 1; }
HIDDEN int omp_get_max_threads() { return g_forced.load() > 0 ? g_forced.load() : g_default; }
HIDDEN int omp_get_num_procs() { return g_default; }
HIDDEN int omp_in_parallel() { return tls.level > 0; }
HIDDEN void omp_set_num_threads(int n) { if (n > 0) g_default = n; }
HIDDEN void GOMP_critical_start() { g_critical.lock(); }
HIDDEN void GOMP_critical_end() { g_critical.unlock(); }
HIDDEN void GOMP_critical_name_start(void** p) { (void)p; g_critical.lock(); }
HIDDEN void GOMP_critical_name_end(void** p) { (void)p; g_critical.unlock(); }
HIDDEN void GOMP_atomic_start() { g_atomic.lock(); }
HIDDEN void GOMP_atomic_end() { g_atomic.unlock(); }
HIDDEN void GOMP_barrier() {
  Team* t = tls.team;
  if (!t || t->n == 1) return;
  std::unique_lock<std::mutex> l(t->mu);
  unsigned long g = t->gen;
  if (++t->waiting == t->n) {
    t->waiting = 0;
    ++t->gen;
    t->ws_init = false;
    t->cv.notify_all();
  } else {
    t->cv.wait(l, [&] { return t->gen != g; });
  }
}
HIDDEN bool GOMP_single_start() {
  Team* t = tls.team;
  if (!t || t->n == 1) return true;
  std::unique_lock<std::mutex> l(t->mu);
  return t->single_taken++ % t->n == 0;
}
// dynamic / guided loops
HIDDEN bool GOMP_loop_dynamic_next(long* s, long* e) {
  Team* t = tls.team;
  std::unique_lock<std::mutex> l(t->mu);
  if ((t->incr > 0 && t->next >= t->end) || (t->incr < 0 && t->next <= t->end)) return false;
  *s = t->next;
  long stop = t->next + t->chunk * t->incr;
  if ((t->incr > 0 && stop > t->end) || (t->incr < 0 && stop < t->end)) stop = t->end;
  *e = stop;
  t->next = stop;
  return true;
}
HIDDEN bool GOMP_loop_dynamic_start(long start, long end, long incr, long chunk, long* s, long* e) {
  Team* t = tls.team;
  static thread_local Team solo;
  if (!t) { tls.team = t = &solo; solo.n = 1; solo.ws_init = false; }
  {
    std::unique_lock<std::mutex> l(t->mu);
    if (!t->ws_init) {
      t->ws_init = true;
      t->next = start; t->end = end; t->incr = incr; t->chunk = chunk > 0 ? chunk : 1;
    }
  }
  return GOMP_loop_dynamic_next(s, e);
}
HIDDEN bool GOMP_loop_nonmonotonic_dynamic_start(long a, long b, long c, long d, long* s, long* e) {
  return GOMP_loop_dynamic_start(a, b, c, d, s, e);
}
HIDDEN bool GOMP_loop_nonmonotonic_dynamic_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
HIDDEN bool GOMP_loop_guided_start(long a, long b, long c, long d, long* s, long* e) {
  return GOMP_loop_dynamic_start(a, b, c, d, s, e);
}
HIDDEN bool GOMP_loop_guided_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
HIDDEN bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long c, long d, long* s, long* e) {
  return GOMP_loop_dynamic_start(a, b, c, d, s, e);
}
HIDDEN bool GOMP_loop_nonmonotonic_guided_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
HIDDEN bool GOMP_loop_runtime_start(long a, long b, long c, long* s, long* e) {
  return GOMP_loop_dynamic_start(a, b, c, 1, s, e);
}
HIDDEN bool GOMP_loop_runtime_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
HIDDEN bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long* s, long* e) {
  return GOMP_loop_dynamic_start(a, b, c, 1, s, e);
}
HIDDEN bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return GOMP_loop_dynamic_next(s, e); }
// unsigned long long variants (loops over size_t)
typedef unsigned long long ull;
HIDDEN bool GOMP_loop_ull_dynamic_next(ull* s, ull* e) {
  long a, b;
  if (!GOMP_loop_dynamic_next(&a, &b)) return false;
  *s = a; *e = b;
  return true;
}
HIDDEN bool GOMP_loop_ull_dynamic_start(bool, ull start, ull end, ull incr, ull chunk, ull* s, ull* e) {
  long a, b;
  if (!GOMP_loop_dynamic_start(start, end, incr, chunk, &a, &b)) return false;
  *s = a; *e = b;
  return true;
}
HIDDEN bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool u, ull a, ull b, ull c, ull d, ull* s, ull* e) {
  return GOMP_loop_ull_dynamic_start(u, a, b, c, d, s, e);
}
HIDDEN bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull* s, ull* e) { return GOMP_loop_ull_dynamic_next(s, e); }
HIDDEN bool GOMP_loop_ull_guided_start(bool u, ull a, ull b, ull c, ull d, ull* s, ull* e) {
  return GOMP_loop_ull_dynamic_start(u, a, b, c, d, s, e);
}
HIDDEN bool GOMP_loop_ull_guided_next(ull* s, ull* e) { return GOMP_loop_ull_dynamic_next(s, e); }
HIDDEN bool GOMP_loop_ull_nonmonotonic_guided_start(bool u, ull a, ull b, ull c, ull d, ull* s, ull* e) {
  return GOMP_loop_ull_dynamic_start(u, a, b, c, d, s, e);
}
HIDDEN bool GOMP_loop_ull_nonmonotonic_guided_next(ull* s, ull* e) { return GOMP_loop_ull_dynamic_next(s, e); }
HIDDEN void GOMP_loop_end() { GOMP_barrier(); }
HIDDEN void GOMP_loop_end_nowait() {}
}
