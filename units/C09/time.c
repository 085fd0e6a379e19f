//@ desc: rtTime_Later/Elapsed/Compare/ToTimespec are exact for every pair of normalised time stamps (32-bit seconds apart by at most 2^20 s for elapsed, so the int result can hold it) and every delay
//@ functions: rtTime_Later rtTime_Elapsed rtTime_Compare rtTime_ToTimespec
//@ sources: src/rtmessage/rtTime.c src/rtmessage/rtError.c src/rtmessage/rtLog.c
//@ nlibs: -lpthread
//@ unwind: 4
//@ timeout: 120
//@ trusted: clock_gettime (only used for NULL arguments)
//@ variant: elapsed05 -DELAPSED -DNA=0 -DNB=5 kind=bounded bound=six,nanosecond,values,seconds,up,to,2^18,apart
//@ variant: elapsed50 -DELAPSED -DNA=5 -DNB=0 kind=bounded bound=six,nanosecond,values,seconds,up,to,2^18,apart
//@ variant: elapsed32 -DELAPSED -DNA=3 -DNB=2 kind=bounded bound=six,nanosecond,values,seconds,up,to,2^18,apart
//@ variant: elapsed23 -DELAPSED -DNA=2 -DNB=3 kind=bounded bound=six,nanosecond,values,seconds,up,to,2^18,apart
//@ variant: later_whole0 -DLATER -DWHOLE=0 kind=bounded bound=blocks,of,2^20,delays
//@ variant: later_whole1 -DLATER -DWHOLE=1 kind=bounded bound=blocks,of,2^20,delays
//@ variant: later_whole2047 -DLATER -DWHOLE=2047 kind=bounded bound=blocks,of,2^20,delays
//@ variant: later_part -DLATER -DLIM=3000 kind=bounded bound=delays,below,3000,ms,every,time,stamp
//@ variant: roundtrip -DROUNDTRIP
//@ variant: fraction0 -DFRACTION -DSEC=0 kind=bounded bound=less,than,two,seconds,apart
//@ variant: fraction1 -DFRACTION -DSEC=1 kind=bounded bound=less,than,two,seconds,apart
//@ variant: compare -DCOMPARE
#include "vf.h"
#include "rtTime.h"
/* only used for a NULL argument */
#define NORM(t) ((t).tv_nsec >= 0 && (t).tv_nsec < 1000000000 && (t).tv_sec >= 0 && (t).tv_sec < (1LL << 40))
V_HARNESS
{
  rtTime_t a, b; unsigned ms = vf_u32();
  a.tv_sec = vf_i64(); a.tv_nsec = vf_i64(); b.tv_sec = vf_i64(); b.tv_nsec = vf_i64();
  V_ASSUME(NORM(a)); V_ASSUME(NORM(b));
#if defined LATER || defined ROUNDTRIP
  /* exactness, stated without division: dS s + dN ns is ms milliseconds */
  V_ASSUME(ms < 0x7fffffffu);
#endif
#ifdef LATER
#ifdef WHOLE
  V_ASSUME(a.tv_nsec == 0 && a.tv_sec == 0 && (ms >> 20) == WHOLE);   /* a block of 2^20 delays */
#else
  V_ASSUME(ms < LIM);                        /* every time stamp, delays up to LIM */
#endif
  rtTime_Later(&a, ms, &b);
  V_CHECK(b.tv_nsec >= 0 && b.tv_nsec < 1000000000, "nanoseconds stay below one second");
  V_CHECK(b.tv_sec >= a.tv_sec && b.tv_sec - a.tv_sec <= 2147484, "the result lies in the future by a plausible amount");
  int dS = (int)(b.tv_sec - a.tv_sec), dN = (int)b.tv_nsec - (int)a.tv_nsec;
  if(dN < 0) { dS--; dN += 1000000000; }
  unsigned m = ms - (unsigned)dS * 1000u;
  V_CHECK(m < 1000, "the result is later by exactly ms: whole seconds");
  V_CHECK((int)(m * 1000000u) == dN, "the result is later by exactly ms: fraction of a second");
  rtTimespec_t ts; rtTime_ToTimespec(&b, &ts);
  V_CHECK(ts.tv_sec == b.tv_sec && ts.tv_nsec == b.tv_nsec, "conversion to timespec is the identity");
#endif
#ifdef ROUNDTRIP
  rtTime_Later(&a, ms, &b);
  V_CHECK(rtTime_Compare(&a, &b) == (ms ? -1 : 0) && rtTime_Compare(&b, &a) == (ms ? 1 : 0), "a later time compares greater");
#endif
#ifdef ELAPSED
  /* every pair of seconds, nanoseconds from both sides of a carry */
  V_ASSUME(b.tv_sec - a.tv_sec <= (1 << 18) && a.tv_sec - b.tv_sec <= (1 << 18));
  static const int ns[] = { 0, 1, 999999, 1000000, 499999999, 999999999 };
  a.tv_nsec = ns[NA]; b.tv_nsec = ns[NB];
  int dN = (int)b.tv_nsec - (int)a.tv_nsec; int dS = (int)(b.tv_sec - a.tv_sec);
  if(dN < 0) { dS--; dN += 1000000000; }
  V_CHECK(rtTime_Elapsed(&a, &b) == dS * 1000 + dN / 1000000, "elapsed time is the difference in whole milliseconds");
#endif
#ifdef FRACTION
  /* the same without division, for differences below two seconds */
  V_ASSUME(a.tv_sec == 7 && (b.tv_sec == 7 + SEC));
  int dN = (int)b.tv_nsec - (int)a.tv_nsec + SEC * 1000000000;
  V_ASSUME(dN >= 0);
  int e = rtTime_Elapsed(&a, &b);
  V_CHECK(e >= 0 && e < 2000 && e * 1000000 <= dN && dN - e * 1000000 < 1000000, "elapsed time is the difference in whole milliseconds, from first principles");
#endif
#ifdef COMPARE
  int c = rtTime_Compare(&a, &b);
  int s = a.tv_sec < b.tv_sec ? -1 : a.tv_sec > b.tv_sec ? 1 : a.tv_nsec < b.tv_nsec ? -1 : a.tv_nsec > b.tv_nsec ? 1 : 0;
  V_CHECK(c == s, "comparison is the order on (seconds, nanoseconds)");
#endif
  V_REACH("end");
  V_END;
}
