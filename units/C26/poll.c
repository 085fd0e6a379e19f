//@ desc: on each poll every watched parameter is read exactly once and a change event with the last known and the new value is published exactly if they differ, whatever earlier reads and publishes returned; parameters added while polling are watched, removed ones and those of closed handles are not
//@ functions: rbusValueChange_pollingThreadFunc rbusValueChange_AddPropertyNode rbusValueChange_RemovePropertyNode rbusValueChange_CloseHandle rbusValueChange_Init vcParams_Find vcParams_Free
//@ sources: src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_buffer.c src/rtmessage/rtVector.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 12
//@ unwindset: memcpy.0:100,rtVector_RemoveItem.2:20,memset.0:250,strlen.0:40,strcmp.0:40,strcpy.0:40,vf_harness.0:30,vf_harness.1:30,vf_harness.2:30
//@ flags: --object-bits 13
//@ timeout: 100
//@ kind: bounded
//@ bound: up to two parameters, every sequence of three polls with outcomes same, changed, failed; the enumerated histories of additions, removals and handle closings; values fixed
//@ trusted: publishing by its contract (C25); values by their contract (C13, C16); text of values only in logs and the by field; condition variables and mutexes by their contract, mutexes never fail
//@ variant: one_s0 -DPRE=0 -DMID=0
//@ variant: one_s1 -DPRE=0 -DMID=1
//@ variant: one_s2 -DPRE=0 -DMID=2
//@ variant: one_c0 -DPRE=1 -DMID=0
//@ variant: one_c1 -DPRE=1 -DMID=1
//@ variant: one_c2 -DPRE=1 -DMID=2
//@ variant: one_f0 -DPRE=2 -DMID=0
//@ variant: one_f1 -DPRE=2 -DMID=1
//@ variant: one_f2 -DPRE=2 -DMID=2
//@ variant: two_s0 -DTWO -DPRE=0 -DMID=0
//@ variant: two_s1 -DTWO -DPRE=0 -DMID=1
//@ variant: two_s2 -DTWO -DPRE=0 -DMID=2
//@ variant: two_c0 -DTWO -DPRE=1 -DMID=0
//@ variant: two_c1 -DTWO -DPRE=1 -DMID=1
//@ variant: two_c2 -DTWO -DPRE=1 -DMID=2
//@ variant: two_f0 -DTWO -DPRE=2 -DMID=0
//@ variant: two_f1 -DTWO -DPRE=2 -DMID=1
//@ variant: two_f2 -DTWO -DPRE=2 -DMID=2
//@ variant: back -DHIST=0.b.S.b.
//@ variant: addtwice -DHIST=00.00.C.0.
//@ variant: addlater -DHIST=0.C1.C.C.
//@ variant: removed -DHIST=01.CD0.C.
//@ variant: readd -DHIST=01.CD0C0.C.
//@ variant: unknown -DHIST=0R1.C.
//@ variant: addfails -DHIST=0.f1.C.1.C.
//@ variant: closed -DHIST=01.CH.C.
//@ variant: closefirst -DHIST=01.CG.C.
//@ variant: emptied -DEMPTIED
//@ variant: restart -DRESTART
//@ variant: racing -DRACING
#include "vf.h"
#include <pthread.h>
#include <errno.h>
#include <rbus.h>
#include "rbus_handle.h"
#include "rbus_element.h"
#include "vf_valc.h"
static pthread_mutex_t* held; static pthread_mutex_t* held2; static int joins; static int creates; static void* (*fn[4])(void*); static void* farg[4];
static int vf_lock(pthread_mutex_t* m) { V_CHECK(held != m && held2 != m, "no lock is taken twice"); if(!held) held = m; else held2 = m; return 0; }
static int vf_unlock(pthread_mutex_t* m) { V_CHECK(held == m || held2 == m, "only a lock that is held is released"); if(held == m) held = NULL; else held2 = NULL; return 0; }
static int vf_wait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t);
static int vf_create(pthread_t* t, pthread_attr_t const* a, void* (*f)(void*), void* arg) { (void)a; V_CHECK(creates < 4, "one poller at a time"); *t = (pthread_t)(creates + 1); fn[creates] = f; farg[creates++] = arg; return 0; }
static int vf_join(pthread_t t, void** r);
#define pthread_mutex_lock vf_lock
#define pthread_mutex_unlock vf_unlock
#define pthread_cond_timedwait vf_wait
#define pthread_create vf_create
#define pthread_join vf_join
#define pthread_mutexattr_init(a) 0
#define pthread_mutexattr_settype(a, b) 0
#define pthread_mutex_init(a, b) 0
#define pthread_condattr_init(a) 0
#define pthread_condattr_setclock(a, b) 0
#define pthread_condattr_destroy(a) 0
#define pthread_cond_init(a, b) 0
#define pthread_cond_signal(a) 0
#define pthread_cond_broadcast(a) 0
#define pthread_mutex_destroy(a) 0
#define pthread_cond_destroy(a) 0
#include "rbus_valuechange.c"
#ifndef V_NATIVE
void rbusValue_SetString(rbusValue_t v, char const* s) { (void)v; (void)s; }
char* rbusValue_ToString(rbusValue_t v, char* b, size_t n) { (void)v; (void)b; (void)n; return malloc(1); }
void rtTime_Later(const rtTime_t* a, unsigned int ms, rtTime_t* r) { (void)a; (void)ms; (void)r; }
rtTimespec_t* rtTime_ToTimespec(const rtTime_t* t, rtTimespec_t* r) { (void)t; return r; }
int rtTime_Elapsed(const rtTime_t* a, const rtTime_t* b) { (void)a; (void)b; return 0; }
#endif
static char compname[] = "comp";
void setPropertyChangeComponent(elementNode* n, char const* c) { (void)c; n->changeComp = compname; }
static struct _rbusHandle h[2]; static elementNode node[2]; static char* const name[2] = { "A.a", "A.b" };
/* specification state */
static bool watched[2], closed[2]; static int last[2], cur[2], prev[2], polled[2], published[2]; static bool fails[2], changes[2], polling, addfail; static int pubcode;
static rbusError_t getter(rbusHandle_t hd, rbusProperty_t p, rbusGetHandlerOptions_t* o)
{
  (void)o; int i = strcmp(rbusProperty_GetName(p), name[0]) == 0 ? 0 : 1;
  V_CHECK(strcmp(rbusProperty_GetName(p), name[i]) == 0 && hd == &h[i], "a parameter is read by its name and handle");
  if(polling) { V_CHECK(watched[i], "only watched parameters are polled"); polled[i]++; }
  if(polling ? fails[i] : addfail) return RBUS_ERROR_BUS_ERROR;
  rbusValue_t v = rbusValue_InitInt32(cur[i]); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS;
}
rbusError_t rbusEvent_Publish(rbusHandle_t hd, rbusEvent_t* e)
{
  int i = strcmp(e->name, name[0]) == 0 ? 0 : 1;
  V_CHECK(polling && hd == &h[i] && strcmp(e->name, name[i]) == 0 && e->type == RBUS_EVENT_VALUE_CHANGED, "a value change of the parameter that changed");
  V_CHECK(e->data && rbusObject_GetValue(e->data, "value") && rbusValue_GetInt32(rbusObject_GetValue(e->data, "value")) == cur[i], "with the new value");
  V_CHECK(rbusObject_GetValue(e->data, "oldValue") && rbusValue_GetInt32(rbusObject_GetValue(e->data, "oldValue")) == last[i], "with the last known value");
  published[i]++; pubcode = (pubcode + 1) % 3;
  return pubcode == 0 ? RBUS_ERROR_SUCCESS : pubcode == 1 ? RBUS_ERROR_NOSUBSCRIBERS : RBUS_ERROR_BUS_ERROR;
}
static void add(int i) { bool was = watched[i]; polling = false; rbusValueChange_AddPropertyNode(&h[i], &node[i]); if(!was && !addfail) { watched[i] = true; last[i] = cur[i]; } addfail = false; }
static void del(int i) { polling = false; watched[i] = false; rbusValueChange_RemovePropertyNode(&h[i], &node[i]); }
static int vf_join(pthread_t t, void** r)
{ (void)r; V_CHECK(!held && !held2, "no lock is held while waiting for the poller"); V_CHECK(t >= 1 && t <= (pthread_t)creates, "a poller is waited for"); V_CHECK(!gVC->running || creates > (int)t, "the poller is told to stop"); joins++;
#ifdef RACING
  if(joins == 1) { add(1); }
#endif
  return 0; }
static bool pending; static int polls;
static void settle(void)
{
  if(!pending) return; pending = false;
  for(int i = 0; i < 2; i++) {
    V_CHECK(polled[i] == (watched[i] ? 1 : 0), "each watched parameter is read exactly once per poll, others not at all");
    bool change = watched[i] && !fails[i] && cur[i] != last[i];
    V_CHECK(published[i] == (change ? 1 : 0), "a change is published exactly if the value read differs from the last known one");
    if(watched[i] && !fails[i]) last[i] = cur[i]; }
}
static void poll_next(int o0, int o1)
{
  int o[2] = { o0, o1 };
  for(int i = 0; i < 2; i++) { fails[i] = o[i] == 2; if(o[i] == 1) { prev[i] = cur[i]; cur[i]++; } if(o[i] == 3) { int x = prev[i]; prev[i] = cur[i]; cur[i] = x; } polled[i] = published[i] = 0; }
  pending = true; polling = true; polls++;
}
static int seq[3][2], nseq; static char const* hist; static int runs;
static int vf_wait(pthread_cond_t* c, pthread_mutex_t* m, struct timespec const* t)
{
  (void)c; (void)t; V_CHECK(held == m && !held2, "the poller waits with its lock"); vf_unlock(m);
  settle(); int r = polls % 2 ? 0 : ETIMEDOUT;
  if(hist)
  {
    while(*hist && *hist != '.')
    {
      char ch = *hist++; int k = *hist - '0';
      if(ch == '0' || ch == '1') add(ch - '0');
      else if(ch == 'f') addfail = true;
      else if(ch == 'R') { hist++; polling = false; rbusValueChange_RemovePropertyNode(&h[k], &node[k]); watched[k] = false; }
      else if(ch == 'D') { hist++; del(k); }
      else if(ch == 'C') { cur[0]++; cur[1]++; prev[0] = cur[0] - 1; prev[1] = cur[1] - 1; }
      else if(ch == 'b') { int x = prev[0]; prev[0] = cur[0]; cur[0] = x; }
      else if(ch == 'H') { polling = false; watched[1] = false; rbusValueChange_CloseHandle(&h[1]); }
      else if(ch == 'G') { polling = false; watched[0] = false; rbusValueChange_CloseHandle(&h[0]); }
    }
    if(*hist) { hist++; poll_next(0, 0); }
    else { for(int i = 0; i < 2; i++) if(watched[i]) del(i); }
  }
  else if(runs < nseq) { poll_next(seq[runs][0], seq[runs][1]); runs++; }
  else { for(int i = 0; i < 2; i++) if(watched[i]) del(i); }
  vf_lock(m);
  return r;
}
static void start(void)
{
  V_CHECK(gVC == NULL, "nothing is left over");
  for(int i = 0; i < 2; i++) { memset(&h[i], 0, sizeof h[i]); h[i].componentName = compname; memset(&node[i], 0, sizeof node[i]); node[i].fullName = name[i]; node[i].type = RBUS_ELEMENT_TYPE_PROPERTY; node[i].cbTable.getHandler = getter;
    watched[i] = false; last[i] = 0; cur[i] = 10 * (i + 1); prev[i] = cur[i]; fails[i] = false; }
  held = held2 = NULL; creates = joins = 0; polls = runs = 0; pending = false; addfail = false; hist = NULL; nseq = 0;
}
static void finish(void)
{
  settle(); V_CHECK(!held && !held2, "all locks are released");
  if(gVC) { polling = false; rbusValueChange_CloseHandle(&h[0]); }
  if(gVC) rbusValueChange_CloseHandle(&h[1]);
  V_CHECK(gVC == NULL && joins == creates, "closing the last handle ends the polling");
}
#define STR_(x) #x
#define STR(x) STR_(x)
V_HARNESS
{
#if defined HIST
  start(); static char const script[] = STR(HIST); hist = script; while(*hist == '0' || *hist == '1') { add(*hist - '0'); hist++; }
  V_CHECK(creates == 1, "one poller is started"); fn[0](farg[0]); finish();
#elif defined EMPTIED
  start(); add(0); add(1); V_CHECK(creates == 1, "one poller is started"); del(0); V_CHECK(joins == 0, "the poller goes on"); polling = false; rbusValueChange_CloseHandle(&h[1]); watched[1] = false;
  V_CHECK(gVC == NULL && joins == 1, "closing the last handle ends the polling");
  add(0); V_CHECK(creates == 2, "it can be started again"); seq[0][0] = 1; nseq = 1; fn[1](farg[1]); finish();
#elif defined RESTART
  start(); add(0); del(0); V_CHECK(joins == 1, "without parameters nothing is polled"); fn[0](farg[0]); V_CHECK(polls == 0, "the stopped poller ends");
  add(1); V_CHECK(creates == 2, "it is started again"); seq[0][1] = 1; seq[1][1] = 2; seq[2][1] = 1; nseq = 3; fn[1](farg[1]); V_CHECK(polls == 3, "and polls"); finish();
#elif defined RACING /* another parameter is added while the poller is being stopped */
  start(); add(0); del(0); V_CHECK(creates == 2 && joins == 1, "a parameter added meanwhile has a poller"); fn[0](farg[0]); V_CHECK(polls == 0, "the stopped poller ends even though another one runs");
  seq[0][1] = 1; nseq = 1; fn[1](farg[1]); V_CHECK(polls == 1, "the other one polls"); finish();
#else
  for(int a = 3 * MID; a < 3 * MID + 3; a++)
  {
#ifdef TWO
    start(); add(0); add(1);
    seq[0][0] = PRE; seq[0][1] = (PRE + 1) % 3; seq[1][0] = a / 3; seq[1][1] = a % 3; nseq = 2;
#else
    start(); add(0); seq[0][0] = PRE; seq[1][0] = a / 3; seq[2][0] = a % 3; nseq = 3;
#endif
    fn[0](farg[0]); V_CHECK(polls == nseq, "polling goes on until it is stopped"); finish();
  }
#endif
  V_REACH("end");
  V_END;
}
