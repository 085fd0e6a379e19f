//@ desc: the provider applies a set request's parameters in order, each with exactly the requested name, value and options, until the first failure; the reply carries the outcome and names the failed parameter; with rollback every parameter already changed has its former value back, and on success the reply carries the former values
//@ functions: _set_callback_handler _rollback_set_values rbusProperty_initFromMessage rbusPropertyList_appendToMessage
//@ sources: src/rbus/rbus_property.c src/rbus/rbus_value.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 30
//@ unwindset: memcpy.0:100,memset.0:200
//@ timeout: 60
//@ kind: bounded
//@ bound: one to three parameters, each with the outcome given by the variant (accepted, missing, without setter, refused, without or with failing getter, unreadable value), all values, sessions, with and without commit and rollback
//@ trusted: element lookup by its contract (C20); bus messages by their contract (C11); other value types than integers as opaque (C13, C19); mutexes never fail
//@ variant: one -DO0=OK -DN=1
//@ variant: one_refused -DO0=REFUSED -DN=1
//@ variant: one_missing -DO0=MISSING -DN=1
//@ variant: one_readonly -DO0=NOSET -DN=1
//@ variant: one_unreadable -DO0=BAD -DN=1
//@ variant: none -DN=0
//@ variant: all -DO0=OK -DO1=OK -DO2=OK
//@ variant: all_noget -DO0=OK -DO1=NOGET -DO2=GETFAIL
//@ variant: first_refused -DO0=REFUSED -DO1=OK -DO2=OK
//@ variant: middle_refused -DO0=OK -DO1=REFUSED -DO2=OK -DCODE=1
//@ variant: last_refused -DO0=OK -DO1=OK -DO2=REFUSED
//@ variant: last_missing -DO0=OK -DO1=OK -DO2=MISSING
//@ variant: last_readonly -DO0=OK -DO1=OK -DO2=NOSET
//@ variant: last_unreadable -DO0=OK -DO1=OK -DO2=BAD
//@ variant: first_unreadable -DO0=BAD -DO1=OK -DO2=OK
//@ variant: noget_refused -DO0=OK -DO1=NOGET -DO2=REFUSED
//@ variant: getfail_refused -DO0=GETFAIL -DO1=OK -DO2=REFUSED
//@ variant: twice_refused -DO0=OK -DO1=OK -DO2=REFUSED -DTWICE
//@ variant: no_rollback -DO0=OK -DO1=OK -DO2=REFUSED -DNOROLL
//@ variant: no_rollback_all -DO0=OK -DO1=OK -DO2=OK -DNOROLL
//@ variant: no_commit -DO0=OK -DO1=OK -DO2=REFUSED -DNOCOMMIT
#include "vf.h"
#include "rbus.c"
#include "vf_msg.h"
#define OK 0
#define MISSING 1
#define NOSET 2
#define REFUSED 3
#define NOGET 4
#define GETFAIL 5
#define BAD 6
#ifndef O0
#define O0 OK
#endif
#ifndef O1
#define O1 OK
#endif
#ifndef O2
#define O2 OK
#endif
#ifndef CODE
#define CODE 10
#endif
#ifndef N
#define N 3
#endif
static int const out[3] = { O0, O1, O2 };
#ifdef TWICE
static char const* const nm[3] = { "A.a", "A.a", "A.c" };
#define SLOT(i) ((i) == 1 ? 0 : (i))
#else
static char const* const nm[3] = { "A.a", "A.b", "A.c" };
#define SLOT(i) (i)
#endif
static elementNode el[3], rootNode; static struct _rbusHandle h;
static int32_t now[3], was[3], want[3]; static int code; static unsigned sets; static bool reverting;
static int at; static int order[8];
static int slot(char const* n) { return n[2] - 'a'; }
elementNode* retrieveInstanceElementEx(rbusHandle_t hh, elementNode* r, char const* n, bool sync) { (void)hh; (void)sync; V_CHECK(r == &rootNode, "elements of this provider"); int k = slot(n); for(int i = 0; i < N; i++) if(SLOT(i) == k && out[i] == MISSING) return NULL; return &el[k]; }
elementNode* retrieveInstanceElement(elementNode* r, char const* n) { return retrieveInstanceElementEx(NULL, r, n, false); }
static rbusError_t getter(rbusHandle_t hh, rbusProperty_t p, rbusGetHandlerOptions_t* o) { (void)o; V_CHECK(hh == &h, "this handle"); int k = slot(rbusProperty_GetName(p)); if(out[k] == GETFAIL) return RBUS_ERROR_BUS_ERROR; rbusValue_t v; rbusValue_Init(&v); rbusValue_SetInt32(v, now[k]); rbusProperty_SetValue(p, v); rbusValue_Release(v); return RBUS_ERROR_SUCCESS; }
static int32_t session; static bool commit_;
static rbusError_t setter(rbusHandle_t hh, rbusProperty_t p, rbusSetHandlerOptions_t* o)
{
  V_CHECK(hh == &h, "this handle"); V_CHECK(o->sessionId == session, "the requested session"); V_CHECK(o->requestingComponent[0] == 'q' && !o->requestingComponent[1], "the requesting component");
  int k = slot(rbusProperty_GetName(p)); rbusValue_t v = rbusProperty_GetValue(p); V_CHECK(v && rbusValue_GetType(v) == RBUS_INT32, "the requested type");
  if(!reverting && (at >= N || out[at] == MISSING || out[at] == NOSET)) reverting = true;
  if(!reverting)
  {
    V_CHECK(at < N && SLOT(at) == k, "parameters are set in order"); V_CHECK(rbusValue_GetInt32(v) == want[at], "the requested value"); V_CHECK(o->commit == (commit_ && at == N - 1), "committed with the last one");
    if(out[at] == REFUSED) { reverting = true; return code; }
    at++;
  }
  now[k] = rbusValue_GetInt32(v); sets++; return RBUS_ERROR_SUCCESS;
}
static unsigned noted;
void setPropertyChangeComponent(elementNode* n, char const* c) { V_CHECK(c[0] == 'q' && n == &el[SLOT(at - 1)], "the last component to set the parameter is noted"); noted++; }
V_HARNESS
{
  h.elementRoot = &rootNode; h.componentName = "p";
  bool roll = true; commit_ = true; session = (int32_t)vf_u32(); code = CODE;
#ifdef NOROLL
  roll = false;
#endif
#ifdef NOCOMMIT
  commit_ = false;
#endif
  for(int i = 0; i < 3; i++) { was[i] = now[i] = (int32_t)vf_u32(); want[i] = (int32_t)vf_u32(); }
  for(int i = 0; i < 3; i++) { int k = SLOT(i); if(k != i) continue; el[k].cbTable.setHandler = out[i] == NOSET ? NULL : setter; el[k].cbTable.getHandler = out[i] == NOGET ? NULL : getter; }
  rbusMessage q, a = NULL; rbusMessage_Init(&q);
  rbusMessage_SetInt32(q, session); rbusMessage_SetString(q, "q"); rbusMessage_SetInt32(q, roll); rbusMessage_SetInt32(q, N);
  for(int i = 0; i < N; i++) { rbusMessage_SetString(q, nm[i]); rbusMessage_SetInt32(q, out[i] == BAD ? RBUS_LEGACY_INT : RBUS_INT32); rbusMessage_SetInt32(q, want[i]); }
  rbusMessage_SetString(q, commit_ ? "TRUE" : "FALSE");
  _set_callback_handler(&h, q, &a);
  V_CHECK(a != NULL, "the request is answered"); int32_t r; V_CHECK(rbusMessage_GetInt32(a, &r) == RT_OK, "with a code"); char const* s;
  int bad = -1; bool unread = false;
  for(int i = N - 1; i >= 0; i--) if(out[i] == MISSING || out[i] == NOSET || out[i] == REFUSED) bad = i;
  for(int i = N - 1; i >= 0; i--) if(out[i] == BAD) { bad = i; unread = true; } /* found before any is set */
#if N == 0
  V_CHECK(r == RBUS_ERROR_INVALID_INPUT, "nothing to set is refused");
#else
  if(bad < 0)
  {
    V_CHECK(r == RBUS_ERROR_SUCCESS, "the request succeeds"); for(int i = 0; i < N; i++) V_CHECK(now[SLOT(i)] == want[i], "every parameter has its value");
    int32_t n; V_CHECK(rbusMessage_GetInt32(a, &n) == RT_OK, "the former values follow"); int e = 0; if(roll) for(int i = 0; i < N; i++) if(out[i] == OK) e++;
    V_CHECK(n == e, "of every parameter that can be read");
    for(int i = 0; i < 3; i++) if(i < e) { int32_t t, v; V_CHECK(rbusMessage_GetString(a, &s) == RT_OK && rbusMessage_GetInt32(a, &t) == RT_OK && rbusMessage_GetInt32(a, &v) == RT_OK && t == RBUS_INT32, "name, type and value"); V_CHECK(v == was[slot(s)], "the former value"); }
  }
  else
  {
    V_CHECK(r == (out[bad] == MISSING ? RBUS_ERROR_ELEMENT_DOES_NOT_EXIST : out[bad] == NOSET ? RBUS_ERROR_NOT_WRITABLE : unread ? RBUS_ERROR_INVALID_INPUT : code), "the reason is reported");
    V_CHECK(rbusMessage_GetString(a, &s) == RT_OK && s[2] == nm[bad][2] && s[0] == 'A' && !s[3], "the failed parameter is named");
    for(int k = 0; k < 3; k++)
    {
      bool changed = false; int32_t last = was[k]; for(int i = 0; i < bad; i++) if(SLOT(i) == k && !unread) { changed = true; last = want[i]; }
      bool back = roll && out[k] != NOGET && out[k] != GETFAIL;
      V_CHECK(now[k] == (changed && !back ? last : was[k]), "with rollback every parameter already changed has its former value back, without it stays set");
    }
  }
#endif
  V_REACH("end");
  V_END;
}
