//@ desc: rely-guarantee contract of the semaphore for any number of threads and any wake-ups: a wait that succeeds took exactly one token that was there, a wait that fails or times out took none, a post adds exactly one and wakes a waiter; the count is only touched under the lock
//@ functions: rtSemaphore_TimedWait rtSemaphore_Wait rtSemaphore_Post rtSemaphore_Create rtSemaphore_GetValue
//@ trusted: pthread mutex and condition variable semantics (a wait may return at any time with any token count another thread left, 0, ETIMEDOUT only when timed, or another error)
//@ sources: src/rtmessage/rtMemory.c src/rtmessage/rtError.c
//@ nsources: @all
//@ loops: semaphore.json
//@ fallback: unwind=6 -DMAXWAITS=4
//@ unwind: 6
//@ variant: timed -DOP=0
//@ variant: plain -DOP=1
//@ variant: post -DOP=2
//@ variant: create -DOP=3
#include "vf.h"
#ifndef V_NATIVE
#include <pthread.h>
#include <errno.h>
#include "rtSemaphore.h"
struct _rtSemaphore;
static void* the_m, *the_c; static bool held; static int taken, at_acquire, signals, waits, inited, monotonic; static struct timespec* the_t;
int* tokens; /* the semaphore's count */
static int others(void) { int v = vf_i32(); V_ASSUME(v >= 0 && v < 1 << 30); return v; }
int pthread_mutex_lock(pthread_mutex_t* m) { V_CHECK((void*)m == the_m && !held, "the semaphore's own lock is taken, once"); held = true; *tokens = others(); at_acquire = *tokens; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { V_CHECK((void*)m == the_m && held, "and released"); held = false; taken += at_acquire - *tokens; V_CHECK(*tokens >= 0, "the count never becomes negative"); *tokens = others(); return 0; }
static int wait_(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
  V_CHECK((void*)c == the_c && (void*)m == the_m && held, "waiting is on the semaphore's own condition, with the lock");
  V_CHECK(*tokens <= 0, "a thread never waits while there is a token"); V_CHECK(timed == (the_t != NULL), "a timed wait waits with its deadline");
  taken += at_acquire - *tokens; *tokens = others(); at_acquire = *tokens;
#ifdef MAXWAITS
  V_ASSUME(++waits < MAXWAITS);
#endif
  int r = vf_u8(); V_ASSUME(r == 0 || (timed && r == ETIMEDOUT) || r == EINVAL); return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return wait_(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t) { V_CHECK(t == the_t, "with the caller's deadline"); return wait_(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) { V_CHECK((void*)c == the_c, "the semaphore's own condition is signalled"); V_CHECK(held ? *tokens > at_acquire : taken == -1, "after the token is there"); signals++; return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) { return 0; }
int pthread_condattr_init(pthread_condattr_t* a) { monotonic = 0; return 0; }
int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t k) { monotonic = k == CLOCK_MONOTONIC; return 0; }
int pthread_condattr_destroy(pthread_condattr_t* a) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) { inited++; return 0; }
int pthread_cond_init(pthread_cond_t* m, pthread_condattr_t const* a) { inited++; V_CHECK(monotonic, "deadlines are on the clock the callers use"); return 0; }
char* strerror(int e) { return "e"; }
#include "rtSemaphore.c"
V_HARNESS
{
  held = false; taken = at_acquire = signals = waits = inited = monotonic = 0; the_t = NULL;
  rtSemaphore s = malloc(sizeof *s); the_m = &s->m; the_c = &s->c; tokens = &s->v; s->v = others();
  struct timespec t = {0};
#if OP == 0 || OP == 1
  {
    the_t = OP == 0 ? &t : NULL;
    rtError r = OP == 0 ? rtSemaphore_TimedWait(s, &t) : rtSemaphore_Wait(s);
    V_CHECK(!held, "the lock is released");
    if(r == RT_OK) V_CHECK(taken == 1, "a successful wait took exactly one token"); else V_CHECK(taken == 0, "a wait that failed took none");
    #if OP == 0
    if(r == RT_ERROR_TIMEOUT) V_REACH("timeout");
#else
    V_CHECK(r != RT_ERROR_TIMEOUT, "only a timed wait times out");
#endif
    if(r == RT_OK) V_REACH("taken");
  }
#elif OP == 2
  {
    V_CHECK(rtSemaphore_Post(s) == RT_OK && taken == -1 && !held, "a post adds exactly one token"); V_CHECK(signals >= 1, "and wakes a waiter");
    V_REACH("posted");
  }
#else
  {
    rtSemaphore q = NULL; V_CHECK(rtSemaphore_Create(&q) == RT_OK && q && q->v == 0 && inited == 2, "a new semaphore has no tokens");
    int v = -1; s->v = 7; V_CHECK(rtSemaphore_GetValue(s, &v) == RT_OK && v == 7, "the count is reported");
    V_REACH("created");
  }
#endif
}
#else
int main(void) { return 0; }
#endif
