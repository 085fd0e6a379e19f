//@ desc: the thread pool's own time helpers: adding a delay keeps the nanoseconds normalised and exact, elapsed time is in milliseconds also across a second boundary
//@ functions: timeAddMS timeGetElapsed
//@ sources: src/rtmessage/rtThreadPool.c src/rtmessage/rtList.c src/rtmessage/rtError.c src/rtmessage/rtLog.c src/rtmessage/rtMemory.c
//@ nlibs: -lpthread
//@ unwind: 4
//@ kind: bounded
//@ bound: delays below 3 s, every time stamp
//@ trusted: clock_gettime replaced by an arbitrary normalised time stamp
#include "vf.h"
#include <time.h>
void timeAddMS(struct timespec* tsIn, int ms, struct timespec* tsOut);
int timeGetElapsed(struct timespec* startTime);
static struct timespec now;
int clock_gettime(clockid_t c, struct timespec* t) { *t = now; return 0; }
V_HARNESS
{
  struct timespec a, b; int ms = vf_i32();
  a.tv_sec = vf_i64(); a.tv_nsec = vf_i64();
  V_ASSUME(a.tv_nsec >= 0 && a.tv_nsec < 1000000000 && a.tv_sec >= 0 && a.tv_sec < (1LL << 40) && ms >= 0 && ms < 3000);
  timeAddMS(&a, ms, &b);
  V_CHECK(b.tv_nsec >= 0 && b.tv_nsec < 1000000000, "nanoseconds stay below one second");
  int dS = (int)(b.tv_sec - a.tv_sec), dN = (int)b.tv_nsec - (int)a.tv_nsec;
  V_CHECK(dS >= 0 && dS <= 3 && dS * 1000000000LL + dN == ms * 1000000LL, "the result is exactly ms later");
  now = b;
  V_CHECK(timeGetElapsed(&a) == ms, "elapsed time since the start is the delay");
  V_REACH("end");
  V_END;
}
