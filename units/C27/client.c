//@ desc: rbus_createSession / rbus_getCurrentSession / rbus_closeSession together with the manager: for any active id and any id given, the public calls report exactly the one-session specification
//@ functions: rbus_createSession rbus_getCurrentSession rbus_closeSession sessionManager_methodHandler
//@ sources: src/rbus/rbus.c src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ stub: rbusMethod_Invoke rbusEvent_Publish
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60,strdup.0:40
//@ unwind: 12
//@ trusted: transport of the method call (rbusMethod_Invoke) replaced by a direct call of the manager's handler
//@ variant: query -DOP=0
//@ variant: create -DOP=1
//@ variant: close -DOP=2
#include "vf.h"
#define main vf_session_main
#include "session_manager.c"
#undef main
#include "rbus_handle.h"
rbusError_t rbusEvent_Publish(rbusHandle_t h, rbusEvent_t* e) { return RBUS_ERROR_SUCCESS; }
static bool transport_fails;
rbusError_t rbusMethod_Invoke(rbusHandle_t h, char const* m, rbusObject_t in, rbusObject_t* out)
{
  if(transport_fails) return RBUS_ERROR_BUS_ERROR;
  rbusObject_Init(out, NULL);
  return sessionManager_methodHandler(h, m, in, *out, NULL);
}
V_HARNESS
{
  static struct _rbusHandle handle;
  handle.componentName = (char*)"c";
  int32_t before = vf_i32(); uint32_t id = vf_u32(); rbusError_t rc;
  transport_fails = vf_bool();
  g_current_session_id = before;
#if OP == 0
  rc = rbus_getCurrentSession(&handle, &id);
  V_CHECK((rc == RBUS_ERROR_SUCCESS) == !transport_fails, "query succeeds when the manager answers");
  V_CHECK(id == (transport_fails ? 0 : (uint32_t)before), "query returns the active id, zero when none");
  V_CHECK(g_current_session_id == before, "query leaves the session alone");
#elif OP == 1
  rc = rbus_createSession(&handle, &id);
  V_CHECK((rc == RBUS_ERROR_SUCCESS) == (!transport_fails && before == 0), "granted exactly when none is active");
  if(rc == RBUS_ERROR_SUCCESS) { V_CHECK(id != 0 && (uint32_t)g_current_session_id == id, "the granted id is non-zero and active"); V_REACH("granted"); }
  else { V_CHECK(id == 0 && g_current_session_id == before, "a refused create changes nothing"); V_REACH("refused"); }
#else
  rc = rbus_closeSession(&handle, id);
  if(id != 0)
  {
    V_CHECK((rc == RBUS_ERROR_SUCCESS) == (!transport_fails && (int32_t)id == before), "accepted exactly with the active id");
    V_CHECK(g_current_session_id == (rc == RBUS_ERROR_SUCCESS ? 0 : before), "ends the session or leaves it alone");
    V_REACH("close");
  }
  else V_CHECK(g_current_session_id == before, "closing the default session id 0 ends nothing");
#endif
  V_REACH("end");
  V_END;
}
