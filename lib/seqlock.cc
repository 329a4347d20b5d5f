// Sequential exploration: waiting for a lock, a condition or a result in the only
// thread of the process can never end.  Reported at once instead of hanging.
#include <dlfcn.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <linux/futex.h>
#include <chrono>
#include <cstdio>
#include <dirent.h>
#include <errno.h>
#include "mc.h"

static bool alone() {
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  if (!d) return false;
  while (struct dirent* e = readdir(d)) n += e->d_name[0] != '.';
  closedir(d);
  return n == 1;
}
static void stuck(const char* what) {
  bool v = mc::virtual_clock;
  if (!v || !alone()) return;
  mc::virtual_clock = false;
  mc::fail("deadlock: the only thread waits for %s", what);
}
template <class F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  static auto lock = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  static auto try_lock = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!mc::virtual_clock) return lock(m);
  int r = try_lock(m);
  if (r != EBUSY) return r;
  stuck("a mutex it already holds");
  return lock(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) noexcept(false) {
  static auto wait = next<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  stuck("a condition nobody can signal");
  return wait(c, m);
}
// std::__atomic_futex_unsigned_base: waits of futures.
static bool futex_wait(unsigned* addr, unsigned val, bool has_timeout) {
  if (has_timeout) {
    if (!alone()) usleep(20000);                      // else nothing can change
    return __atomic_load_n(addr, __ATOMIC_ACQUIRE) != val;
  }
  while (__atomic_load_n(addr, __ATOMIC_ACQUIRE) == val) {
    stuck("a result nobody can provide");
    syscall(SYS_futex, addr, FUTEX_WAIT, val, nullptr, nullptr, 0);
  }
  return true;
}
bool _ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, long, long) { return futex_wait(addr, val, has_timeout); }
bool _ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
    void*, unsigned* addr, unsigned val, bool has_timeout, long, long) { return futex_wait(addr, val, has_timeout); }
}
