// Perturbs the schedule at the synchronisation calls of the program under
// test. Not for sanitizer builds, they bring their own interceptors.
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

#include <atomic>
#include <cstdint>

namespace {
std::atomic<uint64_t> g_seed{0};
std::atomic<uint64_t> g_threads{0};
thread_local uint64_t t_state = 0;
thread_local uint64_t t_seed = 0;

void jitter() {
  uint64_t s = g_seed.load(std::memory_order_relaxed);
  if (!s) return;
  if (t_seed != s) {
    t_seed = s;
    t_state = s * 0x9e3779b97f4a7c15ull + g_threads.fetch_add(1) * 0xd6e8feb86659fd93ull;
  }
  t_state = t_state * 6364136223846793005ull + 1442695040888963407ull;
  unsigned v = t_state >> 56;
  if (v < 40) {
    sched_yield();
  } else if (v < 52) {
    struct timespec t = {0, static_cast<long>((t_state >> 40) & 0xffff)};
    nanosleep(&t, nullptr);
  } else if (v < 54) {
    struct timespec t = {0, 400000};
    nanosleep(&t, nullptr);
  }
}
template <typename F>
F next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
}  // namespace

extern "C" {
void vp_jitter(unsigned long seed) { g_seed = seed; }

int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  jitter();
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  int r = real(m);
  jitter();
  return r;
}
int pthread_cond_signal(pthread_cond_t* c) {
  static auto real = next<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  jitter();
  return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto real = next<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  jitter();
  return real(c);
}
}
