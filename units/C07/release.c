//@ desc: two threads each holding one reference release it concurrently: exactly one of them destroys the object, the last one; nobody touches it afterwards
//@ functions: rtRetainable_retainInternal rtRetainable_releaseInternal
//@ sources: src/rtmessage/rtRetainable.c
//@ kind: bounded
//@ bound: two concurrent releases, every interleaving
#include "vf.h"
#include "rtRetainable.h"
static int destroyed;
static rtRetainable obj;
static void destroy(rtRetainable* r) { V_CHECK(r == &obj, "the released object is the one destroyed"); V_CHECK(obj.refCount == 0, "destroyed only when no reference is left"); destroyed++; V_CHECK(destroyed == 1, "destroyed at most once"); }
#ifndef V_NATIVE
static _Bool done1, done2;
V_HARNESS
{
  obj.refCount = 2;
  __CPROVER_ASYNC_1: (rtRetainable_releaseInternal(&obj, destroy), done1 = 1);
  rtRetainable_releaseInternal(&obj, destroy); done2 = 1;
  __CPROVER_assume(done1 && done2);
  V_CHECK(destroyed == 1, "destroyed by the last release");
  V_REACH("end");
}
#else
int main(void) { return 0; }
#endif
