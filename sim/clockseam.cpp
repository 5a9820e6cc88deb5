// Clock seam: the wrapped clock calls go to the simulated clock when one is
// installed (world `clock`), else to the real one.
#include <time.h>
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_clock_getres(clockid_t, struct timespec *);
int (*sim_clock_gettime)(clockid_t, struct timespec *) = nullptr;
int (*sim_clock_getres)(clockid_t, struct timespec *) = nullptr;
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
  return sim_clock_gettime ? sim_clock_gettime(c, t) : __real_clock_gettime(c, t);
}
int __wrap_clock_getres(clockid_t c, struct timespec *t) {
  return sim_clock_getres ? sim_clock_getres(c, t) : __real_clock_getres(c, t);
}
}
