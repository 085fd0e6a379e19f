//@ desc: public calls (get, set, add row, remove row, method invoke) report a core failure, a provider's public error and a provider's legacy error as specified, for every code
//@ functions: rbus_get rbus_set rbusTable_addRow rbusTable_removeRow rbusMethod_Invoke rbusMethod_InvokeInternal rbusCoreError_to_rbusError CCSPError_to_rbusError
//@ sources: src/rbus/rbus.c src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60,strdup.0:40
//@ unwind: 40
//@ timeout: 250
//@ trusted: rbus_invokeRemoteMethod2 replaced by an arbitrary outcome; bus messages by their contract (C11); handle validity, timeouts and direct connection lookup by constants; value/object (de)serialisation by its contract (C19)
//@ variant: get -DCALL=0 stub=rbusValue_initFromMessage
//@ variant: set -DCALL=1
//@ variant: addrow -DCALL=2
//@ variant: delrow -DCALL=3
//@ variant: method -DCALL=4 stub=rbusObject_initFromMessage,rbusObject_SetValue,rbusValue_SetString,rbusError_ToString
#include "vf.h"
#include <rbus.h>
#include "rbus_handle.h"
#include "rbuscore.h"
#include "vf_msg.h"
/* the legacy provider codes (wire values) */
enum { RBUS_LEGACY_ERR_SUCCESS = 100, RBUS_LEGACY_ERR_MEMORY_ALLOC_FAIL = 101, RBUS_LEGACY_ERR_FAILURE = 102, RBUS_LEGACY_ERR_NOT_CONNECT = 190,
  RBUS_LEGACY_ERR_TIMEOUT = 191, RBUS_LEGACY_ERR_NOT_EXIST = 192, RBUS_LEGACY_ERR_NOT_SUPPORT = 193, RBUS_LEGACY_ERR_RESOURCE_EXCEEDED = 9004,
  RBUS_LEGACY_ERR_INVALID_PARAMETER_NAME = 9005, RBUS_LEGACY_ERR_INVALID_PARAMETER_TYPE = 9006, RBUS_LEGACY_ERR_INVALID_PARAMETER_VALUE = 9007, RBUS_LEGACY_ERR_NOT_WRITABLE = 9008 };
static int core, code; static bool answered;
rbusCoreError_t rbus_invokeRemoteMethod2(rtConnection c, const char* o, const char* m, rbusMessage out, uint32_t t, rbusMessage* in)
{
  rbusMessage_Release(out);
  if(core != RBUSCORE_SUCCESS) return core;
  answered = true;
  rbusMessage_Init(in);
  rbusMessage_SetInt32(*in, code);
#if CALL == 0
  rbusMessage_SetInt32(*in, 1); rbusMessage_SetString(*in, "a.b"); rbusMessage_SetInt32(*in, RBUS_INT32); rbusMessage_SetInt32(*in, 5);
#endif
#if CALL == 4
  rbusMessage_SetString(*in, "o"); rbusMessage_SetInt32(*in, RBUS_OBJECT_SINGLE_INSTANCE); rbusMessage_SetInt32(*in, 0); rbusMessage_SetInt32(*in, 0);
#endif
#if CALL == 1
  rbusMessage_SetString(*in, "a.b");
#endif
#if CALL == 2
  rbusMessage_SetInt32(*in, 1);
#endif
  return RBUSCORE_SUCCESS;
}
#ifndef V_NATIVE
#if CALL == 0
rbusError_t rbusValue_initFromMessage(rbusValue_t* v, rbusMessage m) { rbusValue_Init(v); rbusValue_SetInt32(*v, 5); return RBUS_ERROR_SUCCESS; }
#endif
#if CALL == 4
rbusError_t rbusObject_initFromMessage(rbusObject_t* o, rbusMessage m) { rbusObject_Init(o, "o"); return RBUS_ERROR_SUCCESS; }
void rbusObject_SetValue(rbusObject_t o, char const* n, rbusValue_t v) { }
void rbusValue_SetString(rbusValue_t v, char const* s) { }
char const* rbusError_ToString(rbusError_t e) { return "e"; }
#endif
#endif
rtConnection rbuscore_FindClientPrivateConnection(const char* n) { return NULL; }
bool rbusHandleList_IsValidHandle(struct _rbusHandle* h) { return true; }
unsigned int rbusHandle_FetchGetTimeout(rbusHandle_t h) { return 1000; }
unsigned int rbusHandle_FetchSetTimeout(rbusHandle_t h) { return 1000; }
static rbusError_t spec_core(int e)
{
  switch(e) {
  case RBUSCORE_SUCCESS: return RBUS_ERROR_SUCCESS;
  case RBUSCORE_ERROR_INVALID_PARAM: return RBUS_ERROR_INVALID_INPUT;
  case RBUSCORE_ERROR_INVALID_STATE: return RBUS_ERROR_SESSION_ALREADY_EXIST;
  case RBUSCORE_ERROR_INSUFFICIENT_MEMORY: case RBUSCORE_ERROR_OUT_OF_RESOURCES: return RBUS_ERROR_OUT_OF_RESOURCES;
  case RBUSCORE_ERROR_REMOTE_END_DECLINED_TO_RESPOND: case RBUSCORE_ERROR_REMOTE_END_FAILED_TO_RESPOND: return RBUS_ERROR_DESTINATION_RESPONSE_FAILURE;
  case RBUSCORE_ERROR_REMOTE_TIMED_OUT: return RBUS_ERROR_TIMEOUT;
  case RBUSCORE_ERROR_MALFORMED_RESPONSE: return RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION;
  case RBUSCORE_ERROR_UNSUPPORTED_METHOD: return RBUS_ERROR_INVALID_METHOD;
  case RBUSCORE_ERROR_UNSUPPORTED_EVENT: return RBUS_ERROR_INVALID_EVENT;
  case RBUSCORE_ERROR_DESTINATION_UNREACHABLE: return RBUS_ERROR_DESTINATION_NOT_REACHABLE;
  case RBUSCORE_SUCCESS_ASYNC: return RBUS_ERROR_ASYNC_RESPONSE;
  case RBUSCORE_ERROR_SUBSCRIBE_NOT_HANDLED: return RBUS_ERROR_INVALID_OPERATION;
  case RBUSCORE_ERROR_ENTRY_NOT_FOUND: return RBUS_ERROR_DESTINATION_NOT_FOUND;
  default: return RBUS_ERROR_BUS_ERROR; }
}
static rbusError_t spec_code(int e)
{
  if(e < 100) return (rbusError_t)e;            /* a public code travels unchanged */
  switch(e) {
  case RBUS_LEGACY_ERR_SUCCESS: return RBUS_ERROR_SUCCESS;
  case RBUS_LEGACY_ERR_MEMORY_ALLOC_FAIL: case RBUS_LEGACY_ERR_NOT_CONNECT: case RBUS_LEGACY_ERR_RESOURCE_EXCEEDED: return RBUS_ERROR_OUT_OF_RESOURCES;
  case RBUS_LEGACY_ERR_TIMEOUT: return RBUS_ERROR_TIMEOUT;
  case RBUS_LEGACY_ERR_NOT_EXIST: return RBUS_ERROR_DESTINATION_NOT_FOUND;
  case RBUS_LEGACY_ERR_INVALID_PARAMETER_NAME: return RBUS_ERROR_INVALID_NAMESPACE;
  case RBUS_LEGACY_ERR_INVALID_PARAMETER_TYPE: return RBUS_ERROR_INVALID_PARAMETER_TYPE;
  case RBUS_LEGACY_ERR_INVALID_PARAMETER_VALUE: return RBUS_ERROR_INVALID_PARAMETER_VALUE;
  case RBUS_LEGACY_ERR_NOT_WRITABLE: return RBUS_ERROR_NOT_WRITABLE;
  default: return RBUS_ERROR_BUS_ERROR; }
}
V_HARNESS
{
  static struct _rbusHandle h; rbusError_t rc; rbusValue_t v = NULL; rbusObject_t o = NULL; uint32_t inst = 0;
  h.componentName = (char*)"c"; h.m_handleType = RBUS_HWDL_TYPE_REGULAR;
  core = vf_i32(); code = vf_i32();
  V_ASSUME(core >= 0); V_ASSUME(code >= 0);
#if CALL == 0
  rc = rbus_get(&h, "a.b", &v);
#elif CALL == 1
  rbusValue_Init(&v); rbusValue_SetInt32(v, 5);
  rc = rbus_set(&h, "a.b", v, NULL);
#elif CALL == 2
  rc = rbusTable_addRow(&h, "a.b.", NULL, &inst);
#elif CALL == 3
  rc = rbusTable_removeRow(&h, "a.b.1");
#else
  rc = rbusMethod_Invoke(&h, "a.b()", NULL, &o);
#endif
  if(core != RBUSCORE_SUCCESS)
  {
    V_CHECK(rc == spec_core(core), "a messaging-core failure surfaces as its public error");
    V_REACH("core failure");
  }
  else
  {
    V_CHECK(rc == spec_code(code), "the provider's answer surfaces as the public error it denotes");
    if(code == 0) { V_CHECK(rc == RBUS_ERROR_SUCCESS, "success is success"); V_REACH("success"); }
    else if(code != 100) { V_CHECK(rc != RBUS_ERROR_SUCCESS, "no failure becomes success"); V_REACH("failure"); }
  }
  V_END;
}
