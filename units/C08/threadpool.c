//@ desc: rely-guarantee contract of the thread pool for any number of workers and callers: a worker executes each task it takes exactly once, outside the lock, and neither sleeps nor ends while a task is queued; a caller queues exactly its task, for which some worker is then responsible, or is refused and leaves no task; the number of threads never exceeds the limit and is counted exactly
//@ functions: rtThread_WorkerThreadFunc rtThread_DequeTask rtThreadPool_RunTask rtThreadPool_CreateWorkerThread
//@ trusted: pthread mutex, condition variable and thread creation semantics; the list contract (C06) in abstract form
//@ sources: src/rtmessage/rtMemory.c
//@ nsources: @all
//@ fallback: unwind=4 -DMAXSTEPS=3
//@ unwind: 6
//@ variant: worker -DOP=0 loops=threadpool.json fptr=rtThread_WorkerThreadFunc.function_pointer_call.1/task unwind=26
//@ variant: caller -DOP=1
//@ variant: create -DOP=2
#include "vf.h"
#ifndef V_NATIVE
#include "rtThreadPool.c"
/* what other threads may do while this one does not hold the lock */
rtThreadPool P; rtThread T; int held, inhand, acc_busy, acc_thr, b_acq, t_acq, executed, dequeued, removed, signals, created, sleeps, pushed, taken_back; int existing; unsigned q, q_acq;
struct _rtThreadTask front, fresh; void* expect; int q_ours; struct { void* data; } node, our_node; int inited; bool fail_create;
static void task(void* d)
{
  V_CHECK(!held, "a task runs without the lock"); V_CHECK(inhand == 1 && d == expect, "each task is executed exactly once, with its own data"); inhand = 0; executed++;
}
static void env(void)
{
  int run = vf_bool(); if(!run) P->isRunning = 0;
#if OP == 0
  int t = vf_i32(), b = vf_i32(); V_ASSUME(t >= 1 + acc_thr && t <= 1000 && b >= acc_busy && b <= t - (acc_thr == 0) + acc_busy); P->threadCount = t; P->busyThreadCount = b; V_ASSUME(t <= P->maxThreadCount);
  q = vf_u32(); V_ASSUME(q < 1u << 30);
#else
  int t = vf_i32(), b = vf_i32(); V_ASSUME(t >= 0 && b >= 0 && b <= t && t <= 1000 && t <= P->maxThreadCount); P->threadCount = t; P->busyThreadCount = b; existing = t;
  q = vf_u32(); V_ASSUME(q < 1u << 30); V_ASSUME(q == 0 || t > 0);
#endif
  t_acq = P->threadCount; b_acq = P->busyThreadCount; q_acq = q;
}
int pthread_mutex_lock(pthread_mutex_t* m) { V_CHECK(m == &P->poolLock && !held, "the pool's lock is taken, once"); held = 1; env(); return 0; }
static void settle(void) { acc_busy += (int)P->busyThreadCount - b_acq; acc_thr += (int)P->threadCount - t_acq; b_acq = P->busyThreadCount; t_acq = P->threadCount; }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  V_CHECK(m == &P->poolLock && held, "the pool's lock is released by its holder"); held = 0;
  settle();
#if OP == 0
  V_CHECK(acc_busy == inhand, "a worker counts as busy exactly while it has a task"); V_CHECK(acc_thr == -(removed > 0), "a worker is counted out exactly when it is taken off the list");
  V_CHECK(!removed || removed == 2 || !P->isRunning || q == 0, "a worker does not end while a task is queued");
  if(removed) removed = 2;
#else
  V_CHECK(P->threadCount == existing, "every thread is counted, from the moment it exists"); V_CHECK(existing <= P->maxThreadCount, "no more threads than configured"); V_CHECK(acc_busy == 0, "callers leave the busy count alone");
  V_CHECK(!q_ours || created || (signals && P->threadCount > 0) || P->busyThreadCount > 0 || (q_acq > 0 && P->threadCount > 0), "some worker is responsible for the queued task");
#endif
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t)
{
  V_CHECK(c == &P->taskCond && m == &P->poolLock && held, "a worker sleeps on the task condition");
  V_CHECK(q == 0 || !P->isRunning, "a worker does not sleep while a task is queued"); settle(); V_CHECK(acc_busy == 0 && acc_thr == 0 && inhand == 0, "nor while it has one, and it stays counted");
  env(); sleeps++;
#ifdef MAXSTEPS
  V_ASSUME(sleeps < MAXSTEPS);
#endif
  int r = vf_u8(); V_ASSUME(r == 0 || r == ETIMEDOUT); return r;
}
int pthread_cond_signal(pthread_cond_t* c) { V_CHECK(c == &P->taskCond || c == &P->idleCond, "one of the pool's conditions"); if(c == &P->taskCond) signals++; return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { return pthread_cond_signal(c); }
int clock_gettime(clockid_t k, struct timespec* t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
int pthread_attr_init(pthread_attr_t* a) { return 0; }
int pthread_attr_destroy(pthread_attr_t* a) { return 0; }
int pthread_attr_setstacksize(pthread_attr_t* a, size_t n) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t* a) { return 0; }
int pthread_cond_destroy(pthread_cond_t* a) { return 0; }
int pthread_mutexattr_init(pthread_mutexattr_t* a) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) { return 0; }
int pthread_condattr_init(pthread_condattr_t* a) { return 0; }
int pthread_condattr_destroy(pthread_condattr_t* a) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) { inited++; return 0; }
int pthread_cond_init(pthread_cond_t* m, pthread_condattr_t const* a) { inited++; return 0; }
int pthread_create(pthread_t* id, pthread_attr_t const* a, void* (*f)(void*), void* d)
{
  V_CHECK(held, "threads are made under the lock");
  if(fail_create) return EAGAIN;
  V_CHECK(f == rtThread_WorkerThreadFunc && ((rtThread)d)->pool == P, "a new thread is a worker of this pool"); created++; existing++; return 0;
}
rtError rtList_Create(rtList* l) { *l = malloc(1); return RT_OK; }
rtError rtList_Destroy(rtList l, rtList_Cleanup d) { return RT_OK; }
rtError rtList_GetSize(rtList l, size_t* n) { V_CHECK(l == P->taskList && (held || OP == 2), "lists are used under the lock"); *n = q; return RT_OK; }
rtError rtList_GetFront(rtList l, rtListItem* it) { V_CHECK(l == P->taskList && held, "the task list is used under the lock"); *it = q > 0 ? (rtListItem)&node : NULL; return RT_OK; }
rtError rtListItem_GetData(rtListItem it, void** d) { V_CHECK((void*)it == &node || (void*)it == &our_node, "data of an item of the list"); *d = (void*)it == &node ? (void*)&front : our_node.data; return RT_OK; }
rtError rtListItem_SetData(rtListItem it, void* d) { V_CHECK((void*)it == &our_node, "the new item's data is set"); our_node.data = d; return RT_OK; }
rtError rtList_RemoveItem(rtList l, rtListItem it, rtList_Cleanup c)
{
  V_CHECK(l == P->taskList && held && q > 0, "removal of a queued task");
#if OP == 0
  V_CHECK((void*)it == &node && c == NULL, "the task at the front is taken, its memory kept"); q--; dequeued++; V_CHECK(inhand == 0, "one task at a time"); inhand = 1; expect = front.userData; front.userData = (void*)vf_u64();
#ifdef MAXSTEPS
  V_ASSUME(dequeued < MAXSTEPS);
#endif
#else
  V_CHECK((void*)it == &our_node && q_ours, "a caller takes back only its own task"); q--; q_ours = 0; taken_back++;
#endif
  return RT_OK;
}
rtError rtList_RemoveItemWithData(rtList l, void* d, rtList_Cleanup c) { V_CHECK(l == P->threadList && d == T && held && !removed, "a worker takes itself off the list, once"); removed = 1; if(c) c(d); return RT_OK; }
rtError rtList_PushBack(rtList l, void* d, rtListItem* it)
{
  V_CHECK(held, "lists are used under the lock");
  if(l == P->taskList) { V_CHECK(d == rtListReuseData && !pushed, "one task is queued"); pushed = 1; q_ours = 1; q++; *it = (rtListItem)&our_node; }
  else V_CHECK(l == P->threadList && created, "the new thread is listed");
  return RT_OK;
}
rtError rtErrorFromErrno(int e) { V_CHECK(e != 0, "an error has a code"); return RT_FAIL; }
void rtList_Cleanup_Free(void* p) { free(p); }
V_HARNESS
{
  held = inhand = acc_busy = acc_thr = executed = dequeued = removed = signals = created = sleeps = pushed = taken_back = q_ours = inited = 0;
  P = malloc(sizeof *P); P->maxThreadCount = vf_u8(); V_ASSUME(P->maxThreadCount >= 1); P->isRunning = 1; P->isShutdown = 0; P->stackSize = vf_u8(); P->expireTime = vf_u8(); P->taskList = malloc(1); P->threadList = malloc(1); rtListReuseData = (void*)1;
#if OP == 0
  T = malloc(sizeof *T); T->pool = P; front.func = task; front.userData = (void*)vf_u64();
  P->threadCount = P->busyThreadCount = 0;
  rtThread_WorkerThreadFunc(T);
  V_CHECK(removed == 2 && executed == dequeued && inhand == 0 && !held, "when it ends, every task it took was executed");
  V_REACH("ended");
#elif OP == 1
  void* d = (void*)vf_u64(); fail_create = vf_bool(); our_node.data = vf_bool() ? &fresh : NULL; 
  rtError e = rtThreadPool_RunTask(P, task, d);
  V_CHECK(!held && pushed, "the lock is released");
  if(e == RT_OK || e == RT_ERROR_THREADPOOL_TASK_PENDING) { rtThreadTask t = our_node.data; V_CHECK(q_ours && t->func == task && t->userData == d, "an accepted task is queued as given"); V_REACH("accepted"); }
  else { V_CHECK(!q_ours, "a refused task is not executed"); V_REACH("refused"); }
#else
  rtThreadPool p = NULL; size_t n = vf_u8(); int x = vf_i32();
  V_CHECK(rtThreadPool_Create(&p, n, 0, x) == RT_OK && p, "made"); V_CHECK(p->maxThreadCount == n && p->threadCount == 0 && p->busyThreadCount == 0 && p->isRunning && !p->isShutdown && p->expireTime > 0 && (x <= 0 || p->expireTime == x) && inited == 3, "a new pool runs with the limit given and no thread");
  V_REACH("created");
#endif
}
#else
int main(void) { return 0; }
#endif
