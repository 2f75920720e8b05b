// Linked into every harness: keeps the files of the built-in profiler inside
// the scratch directory of the run and shortens its polling.
#include <pwd.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

extern "C" struct passwd* getpwuid(uid_t) {
  if (getenv("VERIF_NO_PASSWD")) return nullptr;
  static char home[512];
  static char name[] = "nobody";
  static struct passwd p;
  const char* h = getenv("HOME");
  strncpy(home, h ? h : ".", sizeof(home) - 1);
  p.pw_name = name;
  p.pw_dir = home;
  return &p;
}

extern "C" unsigned int sleep(unsigned int s) {
  const char* ms = getenv("VERIF_SLEEP_MS");
  struct timespec t = {0, (ms ? atol(ms) : 20) * 1000000};
  for (unsigned int i = 0; i < s; ++i) nanosleep(&t, nullptr);
  return 0;
}
