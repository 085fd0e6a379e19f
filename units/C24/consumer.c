//@ desc: a set of several parameters sends each provider one request with exactly its parameters, values and options in order and rollback requested; when one provider refuses or cannot be reached the call fails with its reason, the failed parameter is named and the parameters other providers have set get their former values back; success is reported exactly when all were set
//@ functions: rbus_setMulti rbus_setMultiExt _setMultiInternal _setInternal rbusPropertyList_initFromMessage rbusValue_appendToMessage
//@ sources: src/rbus/rbus_property.c src/rbus/rbus_value.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 30
//@ unwindset: memcpy.0:100,memset.0:200
//@ timeout: 60
//@ kind: bounded
//@ bound: one to three parameters of one to three providers, with the outcomes given by the variant; all values and sessions, with and without commit
//@ trusted: the providers behave as unit provider shows; the bus reports its failures (C05); component discovery by its contract; bus messages by their contract (C11); other value types than integers as opaque (C13, C19)
//@ variant: one -DN=1 -DP0=0
//@ variant: one_refused -DN=1 -DP0=0 -DR0=REFUSED
//@ variant: one_unreached -DN=1 -DP0=0 -DR0=LOST
//@ variant: same -DP0=0 -DP1=0 -DP2=0
//@ variant: same_refused -DP0=0 -DP1=0 -DP2=0 -DR0=REFUSED
//@ variant: mixed -DP0=0 -DP1=1 -DP2=0
//@ variant: mixed_first_refused -DP0=0 -DP1=1 -DP2=0 -DR0=REFUSED
//@ variant: mixed_second_refused -DP0=0 -DP1=1 -DP2=0 -DR1=REFUSED
//@ variant: mixed_second_lost -DP0=0 -DP1=1 -DP2=0 -DR1=LOST
//@ variant: mixed_first_lost -DP0=0 -DP1=1 -DP2=0 -DR0=LOST
//@ variant: three -DP0=0 -DP1=1 -DP2=2
//@ variant: three_last_refused -DP0=0 -DP1=1 -DP2=2 -DR2=REFUSED
//@ variant: three_middle_lost -DP0=0 -DP1=1 -DP2=2 -DR1=LOST
//@ variant: too_few -DP0=0 -DP1=1 -DN=2 -DCLAIM=3
//@ variant: too_few_one -DP0=0 -DN=1 -DCLAIM=2
//@ variant: unknown -DP0=0 -DP1=1 -DP2=2 -DUNKNOWN
//@ variant: options -DP0=0 -DP1=1 -DP2=2 -DR2=REFUSED -DNOOPT
#include "vf.h"
#include "rbus.c"
#include "vf_msg.h"
#define OK 0
#define REFUSED 1
#define LOST 2
#ifndef N
#define N 3
#endif
#ifndef P1
#define P1 0
#endif
#ifndef P2
#define P2 0
#endif
#ifndef R0
#define R0 OK
#endif
#ifndef R1
#define R1 OK
#endif
#ifndef R2
#define R2 OK
#endif
#ifndef CLAIM
#define CLAIM N
#endif
static int const of[3] = { P0, P1, P2 }, res[3] = { R0, R1, R2 };
static char const* const nm[3] = { "A.a", "A.b", "A.c" };
static int32_t now[3], was[3], want[3], session; static bool commit_, failed, noopt; static unsigned asked[3];
bool rbusHandleList_IsValidHandle(struct _rbusHandle* h) { (void)h; return true; }
unsigned int rbusHandle_FetchSetTimeout(rbusHandle_t h) { (void)h; return 1000; }
unsigned int rbusHandle_FetchSetMultiTimeout(rbusHandle_t h) { (void)h; return 1000; }
rtConnection rbuscore_FindClientPrivateConnection(const char* n) { (void)n; return NULL; }
rbusCoreError_t rbus_discoverElementsObjects(int n, const char** e, int* cnt, char*** objs)
{
  *objs = malloc(sizeof(char*) * n); *cnt = n;
  for(int i = 0; i < n; i++) { char* c = malloc(2); c[0] = (char)('X' + of[e[i][2] - 'a']); c[1] = 0;
#ifdef UNKNOWN
    if(e[i][2] == 'b') c[0] = 0;
#endif
    (*objs)[i] = c; }
  return RBUSCORE_SUCCESS;
}
rbusCoreError_t rbus_invokeRemoteMethod2(rtConnection c, const char* o, const char* m, rbusMessage q, uint32_t t, rbusMessage* a)
{
  (void)c; V_CHECK(m == METHOD_SETPARAMETERVALUES || m[0] == 'M', "a set request"); V_CHECK(t == 1000, "with the time allowed");
  int32_t sid, roll, n; char const* s; V_CHECK(rbusMessage_GetInt32(q, &sid) == RT_OK && sid == session, "the requested session"); V_CHECK(rbusMessage_GetString(q, &s) == RT_OK && s[0] == 'q' && !s[1], "this component asks");
  V_CHECK(rbusMessage_GetInt32(q, &roll) == RT_OK && rbusMessage_GetInt32(q, &n) == RT_OK, "rollback and count");
  int p = of[o[2] - 'a']; bool back = failed;
  if(!back) { V_CHECK(roll == (N > 1), "rollback is requested of a set of several"); asked[p]++; V_CHECK(asked[p] == 1, "each provider is asked once"); }
  int e = 0; for(int i = 0; i < N; i++) if(of[i] == p) e++;
  V_CHECK(back || n == e, "exactly its parameters");
  int k = -1; int32_t v[3];
  if(!back && res[p] == LOST) { failed = true; rbusMessage_Release(q); return RBUSCORE_ERROR_REMOTE_TIMED_OUT; }
  rbusMessage_Init(a); bool ok = back || res[p] == OK; rbusMessage_SetInt32(*a, ok ? RBUS_ERROR_SUCCESS : RBUS_ERROR_ACCESS_NOT_ALLOWED);
  if(!ok) { rbusMessage_SetString(*a, nm[p == P2 ? 2 : p == P1 ? 1 : 0]); failed = true; }
  else rbusMessage_SetInt32(*a, back || !roll ? 0 : n);
  for(int i = 0; i < 3; i++) if(i < n)
  {
    int32_t type, val; V_CHECK(rbusMessage_GetString(q, &s) == RT_OK && rbusMessage_GetInt32(q, &type) == RT_OK && rbusMessage_GetInt32(q, &val) == RT_OK, "name, type and value"); V_CHECK(type == RBUS_INT32, "the type requested");
    int j = s[2] - 'a'; V_CHECK(of[j] == p, "only parameters of this provider"); V_CHECK(back || (j > k && val == want[j]), "in order, with the requested value"); k = j;
    if(ok) { if(!back && roll) { rbusMessage_SetString(*a, nm[j]); rbusMessage_SetInt32(*a, RBUS_INT32); rbusMessage_SetInt32(*a, now[j]); } now[j] = val; }
  }
  V_CHECK(rbusMessage_GetString(q, &s) == RT_OK && (back || (s[0] == 'T') == commit_), "the requested commit");
  rbusMessage_Release(q); return RBUSCORE_SUCCESS;
}
rbusCoreError_t rbus_invokeRemoteMethod(const char* o, const char* m, rbusMessage q, uint32_t t, rbusMessage* a) { return rbus_invokeRemoteMethod2(NULL, o, m, q, t, a); }
V_HARNESS
{
  static struct _rbusHandle h; h.componentName = "q"; h.m_handleType = RBUS_HWDL_TYPE_REGULAR; rbusProperty_t list = NULL;
  session = (int32_t)vf_u32(); commit_ = vf_bool();
  for(int i = N - 1; i >= 0; i--)
  {
    was[i] = now[i] = (int32_t)vf_u32(); want[i] = (int32_t)vf_u32(); rbusValue_t v; rbusValue_Init(&v); rbusValue_SetInt32(v, want[i]);
    rbusProperty_t p; rbusProperty_Init(&p, nm[i], v); if(list) rbusProperty_SetNext(p, list); list = p;
  }
  rbusSetOptions_t o = { commit_, (uint32_t)session }; char* bad = (char*)nm[0];
#ifdef NOOPT
  session = 0; commit_ = true; rbusError_t rc = rbus_setMultiExt(&h, CLAIM, list, NULL, 0, &bad);
#else
  rbusError_t rc = rbus_setMultiExt(&h, CLAIM, list, &o, 0, &bad);
#endif
  bool ok = true; int f = -1;
  for(int i = N - 1; i >= 0; i--) if(res[of[i]] != OK) { ok = false; f = of[i]; }
#if defined UNKNOWN || CLAIM != N
  V_CHECK(rc == RBUS_ERROR_INVALID_INPUT, "an unusable list is refused"); for(int i = 0; i < N; i++) V_CHECK(now[i] == was[i], "and nothing is set");
#else
  if(ok) { V_CHECK(rc == RBUS_ERROR_SUCCESS, "success is reported"); V_CHECK(bad == NULL, "no parameter failed"); for(int i = 0; i < N; i++) V_CHECK(now[i] == want[i], "every parameter has its value"); }
  else
  {
    V_CHECK(rc == (res[f] == LOST ? RBUS_ERROR_TIMEOUT : RBUS_ERROR_ACCESS_NOT_ALLOWED), "the reason is reported"); for(int i = 0; i < N; i++) V_CHECK(now[i] == was[i], "every parameter already changed has its former value back");
    V_CHECK(res[f] == LOST || (bad != NULL && of[bad[2] - 'a'] == f), "the failed parameter is named");
  }
#endif
  V_REACH("end");
  V_END;
}
