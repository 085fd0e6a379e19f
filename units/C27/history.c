//@ desc: session manager as clients see it: any history of 4 requests (create, query, end with arbitrary id) from a fresh manager is answered as by the one-session specification
//@ functions: sessionManager_methodHandler
//@ sources: src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60,strdup.0:40,vf_harness.0:10
//@ unwind: 12
//@ kind: bounded
//@ bound: listed histories of 4 to 5 requests, arbitrary ids
//@ nlibs: -lpthread
//@ trusted: rbusEvent_Publish (the session-id event) replaced by a no-op
//@ variant: a -DHIST="cqeq"
//@ variant: b -DHIST="ccqec"
//@ variant: c -DHIST="qecqe"
//@ variant: d -DHIST="cecqe"
#include "vf.h"
#define main vf_session_main
#include "session_manager.c"
#undef main
#define STR_(x) #x
#define STR(x) STR_(x)
rbusError_t rbusEvent_Publish(rbusHandle_t h, rbusEvent_t* e) { return RBUS_ERROR_SUCCESS; }
static int32_t geti(rbusObject_t o, char const* n, bool* there)
{ rbusValue_t v = rbusObject_GetValue(o, n); *there = v != NULL && rbusValue_GetType(v) == RBUS_INT32; return *there ? rbusValue_GetInt32(v) : 0; }
V_HARNESS
{
  static char const hist[] = STR(HIST);
  int32_t active = 0; bool there;      /* the specification state */
  for(int i = 0; i < (int)sizeof(hist) - 1; i++)
  {
    rbusObject_t in, out; rbusValue_t v; int32_t r, s;
    rbusObject_Init(&in, NULL); rbusObject_Init(&out, NULL);
    if(hist[i] == 'q')
    {
      sessionManager_methodHandler(NULL, RBUS_SMGR_METHOD_GET_CURRENT_SESSION_ID, in, out, NULL);
      r = geti(out, "return_value", &there); V_CHECK(there && r == 0, "query succeeds");
      s = geti(out, "sessionid", &there); V_CHECK(there && s == active, "query returns the active id, zero when none");
    }
    else if(hist[i] == 'c')
    {
      sessionManager_methodHandler(NULL, RBUS_SMGR_METHOD_REQUEST_SESSION_ID, in, out, NULL);
      r = geti(out, "return_value", &there); V_CHECK(there && (r == 0) == (active == 0), "granted exactly when none is active");
      if(active == 0) { s = geti(out, "sessionid", &there); V_CHECK(there && s != 0, "the granted id is non-zero"); active = s; }
    }
    else
    {
      int32_t id = vf_i32();
      rbusValue_Init(&v); rbusValue_SetInt32(v, id); rbusObject_SetValue(in, "session", v);
      sessionManager_methodHandler(NULL, RBUS_SMGR_METHOD_END_SESSION, in, out, NULL);
      r = geti(out, "result", &there); V_CHECK(there && (r == 0) == (active != 0 && id == active), "only the active id ends the session");
      if(active != 0 && id == active) active = 0;
    }
  }
  V_REACH("end of history");
  V_END;
}
