//@ desc: session manager contract, inductive over its state: from any state (any active id, or none) each request (create, query, end with any id, end with no or a wrongly typed id) answers and changes the state exactly as specified
//@ functions: sessionManager_methodHandler
//@ sources: src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60,strdup.0:40,vf_harness.0:10
//@ unwind: 12
//@ nlibs: -lpthread
//@ trusted: rbusEvent_Publish (the session-id event) replaced by a recorder
//@ variant: query -DOP=0
//@ variant: create -DOP=1
//@ variant: end -DOP=2
//@ variant: end_noid -DOP=3
//@ variant: end_badtype -DOP=4
#include "vf.h"
#define main vf_session_main
#include "session_manager.c"
#undef main
static int32_t published = -1;
rbusError_t rbusEvent_Publish(rbusHandle_t h, rbusEvent_t* e)
{ rbusValue_t v = rbusObject_GetValue(e->data, "sessionid"); published = v ? rbusValue_GetInt32(v) : -1; return RBUS_ERROR_SUCCESS; }
static int32_t geti(rbusObject_t o, char const* n, bool* there)
{ rbusValue_t v = rbusObject_GetValue(o, n); *there = v != NULL && rbusValue_GetType(v) == RBUS_INT32; return *there ? rbusValue_GetInt32(v) : 0; }
V_HARNESS
{
  static char const* const methods[] = { RBUS_SMGR_METHOD_GET_CURRENT_SESSION_ID, RBUS_SMGR_METHOD_REQUEST_SESSION_ID, RBUS_SMGR_METHOD_END_SESSION };
  int32_t before = vf_i32(), id = vf_i32(); bool there;
  rbusObject_t in, out; rbusValue_t v;
  g_current_session_id = before;
  rbusObject_Init(&in, NULL); rbusObject_Init(&out, NULL);
  if(OP == 2) { rbusValue_Init(&v); rbusValue_SetInt32(v, id); rbusObject_SetValue(in, "session", v); }
  if(OP == 4) { rbusValue_Init(&v); rbusValue_SetUInt16(v, (uint16_t)id); rbusObject_SetValue(in, "session", v); }
  rbusError_t rc = sessionManager_methodHandler(NULL, methods[OP > 2 ? 2 : OP], in, out, NULL);
  V_CHECK(rc == RBUS_ERROR_SUCCESS, "the request is served");
  int32_t now = g_current_session_id, r, s;
#if OP == 0
  {
    r = geti(out, "return_value", &there); V_CHECK(there && r == 0, "query succeeds");
    s = geti(out, "sessionid", &there); V_CHECK(there && s == before, "query returns the active id, zero when none");
    V_CHECK(now == before, "query leaves the session alone"); V_REACH("query");
  }
#elif OP == 1
  {
    r = geti(out, "return_value", &there); V_CHECK(there && (r == 0) == (before == 0), "granted exactly when none is active");
    s = geti(out, "sessionid", &there);
    if(before == 0) { V_CHECK(there && s != 0 && now == s, "the granted id is non-zero and becomes the active one"); V_REACH("granted"); }
    else { V_CHECK(now == before, "a refused create leaves the active session alone"); V_CHECK(!there || s != before || r != 0, "refused"); V_REACH("refused"); }
    V_CHECK(published == now, "the announced id is the active one");
  }
#else
  {
    r = geti(out, "result", &there); V_CHECK(there, "end reports a result");
    
#if OP == 2
    if(before != 0 && id == before) { V_CHECK(r == 0 && now == 0, "the active id ends the session"); V_REACH("ended"); } else
#endif
    { V_CHECK(r != 0, "any other id is refused"); V_CHECK(now == before, "a refused end leaves the active session alone"); V_REACH("refused end"); }
    V_CHECK(published == now, "the announced id is the active one");
  }
#endif
  V_END;
}
