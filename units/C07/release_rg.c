//@ desc: rely-guarantee contract of release/retain for any number of threads: while this thread holds a reference others may change the count but not below one; the release decides by one atomic step, never touches the object after giving its reference up, and destroys it if and only if it gave up the last one
//@ functions: rtRetainable_retainInternal rtRetainable_releaseInternal rt_atomic_fetch_sub rt_atomic_fetch_add
//@ trusted: the compiler's __atomic_fetch_add/sub builtins are atomic
//@ variant: release
//@ variant: retain -DRETAIN
#include "vf.h"
#ifndef V_NATIVE
#define __atomic_fetch_sub(p, v, o) vf_fetch((p), -(v))
#define __atomic_fetch_add(p, v, o) vf_fetch((p), (v))
#define __atomic_sub_fetch(p, v, o) (vf_fetch((p), -(v)) - (v))
#define __atomic_add_fetch(p, v, o) (vf_fetch((p), (v)) + (v))
static int vf_fetch(volatile int* p, int d);
#define atomic_int volatile int
#include "rtRetainable.c"
static rtRetainable* obj; static int mine, steps, destroyed; static bool last, given;
/* interference of the other threads: any number of references of theirs come and go while we hold ours */
static int vf_fetch(volatile int* p, int d)
{
  V_CHECK(p == &obj->refCount, "the object's own count is changed"); V_CHECK(!given, "no access after the reference was given up");
  int others = vf_i32(); V_ASSUME(others >= 0 && others < 1 << 30);
  int before = mine + others;
  mine += d; steps++;
  *p = before + d;
  if(mine == 0) { last = others == 0; if(!last) { given = true; free(obj); /* the others may have destroyed it by now */ } }
  return before;
}
static void destroy(rtRetainable* r)
{ destroyed++; V_CHECK(steps == 1 && last, "destroyed only by the thread that gave up the last reference"); V_CHECK(r == obj, "the released object is destroyed"); }
V_HARNESS
{
  obj = malloc(sizeof *obj); mine = 1; obj->refCount = 1 + (vf_u8());
#ifdef RETAIN
  rtRetainable_retainInternal(obj);
  V_CHECK(mine == 2 && steps == 1 && destroyed == 0, "a retain adds exactly one reference"); V_REACH("retained");
#else
  rtRetainable_releaseInternal(obj, destroy);
  V_CHECK(steps == 1 && mine == 0, "a release gives up exactly one reference in one atomic step");
  V_CHECK(destroyed == (last ? 1 : 0), "the last release, and only it, destroys");
  if(last) V_REACH("last"); else V_REACH("not last");
#endif
}
#else
int main(void) { return 0; }
#endif
