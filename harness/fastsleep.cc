// Shortens the sleeps of the program under test: one second takes
// vp_sleep_ns_per_s nanoseconds. Zero (the default) leaves them alone.
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>

extern "C" {
std::atomic<long> vp_sleep_ns_per_s{0};

int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  struct timespec s = *t;
  const long scale = vp_sleep_ns_per_s.load(std::memory_order_relaxed);
  if (scale && !(flags & TIMER_ABSTIME)) {
    const __int128 ns = (static_cast<__int128>(s.tv_sec) * 1000000000 + s.tv_nsec) * scale / 1000000000;
    s.tv_sec = ns / 1000000000;
    s.tv_nsec = ns % 1000000000;
  }
  return syscall(SYS_clock_nanosleep, c, flags, &s, rem);
}
int nanosleep(const struct timespec* t, struct timespec* rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); }
}
