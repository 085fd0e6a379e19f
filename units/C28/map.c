//@ desc: the two translation tables, every int: success maps to success and nothing else does, every documented code to its documented public error
//@ functions: rbusCoreError_to_rbusError CCSPError_to_rbusError
//@ nsources: @all
//@ sources: vlib/vf_nil.c
//@ unwind: 4
#include "vf.h"
#include "rbus.c"
V_HARNESS
{
  int e = vf_i32(); rbusError_t r = rbusCoreError_to_rbusError(e), w;
  switch(e) {
  case RBUSCORE_SUCCESS: w = RBUS_ERROR_SUCCESS; break;
  case RBUSCORE_ERROR_INVALID_PARAM: w = RBUS_ERROR_INVALID_INPUT; break;
  case RBUSCORE_ERROR_INVALID_STATE: w = RBUS_ERROR_SESSION_ALREADY_EXIST; break;
  case RBUSCORE_ERROR_INSUFFICIENT_MEMORY: case RBUSCORE_ERROR_OUT_OF_RESOURCES: w = RBUS_ERROR_OUT_OF_RESOURCES; break;
  case RBUSCORE_ERROR_REMOTE_END_DECLINED_TO_RESPOND: case RBUSCORE_ERROR_REMOTE_END_FAILED_TO_RESPOND: w = RBUS_ERROR_DESTINATION_RESPONSE_FAILURE; break;
  case RBUSCORE_ERROR_REMOTE_TIMED_OUT: w = RBUS_ERROR_TIMEOUT; break;
  case RBUSCORE_ERROR_MALFORMED_RESPONSE: w = RBUS_ERROR_INVALID_RESPONSE_FROM_DESTINATION; break;
  case RBUSCORE_ERROR_UNSUPPORTED_METHOD: w = RBUS_ERROR_INVALID_METHOD; break;
  case RBUSCORE_ERROR_UNSUPPORTED_EVENT: w = RBUS_ERROR_INVALID_EVENT; break;
  case RBUSCORE_ERROR_DESTINATION_UNREACHABLE: w = RBUS_ERROR_DESTINATION_NOT_REACHABLE; break;
  case RBUSCORE_SUCCESS_ASYNC: w = RBUS_ERROR_ASYNC_RESPONSE; break;
  case RBUSCORE_ERROR_SUBSCRIBE_NOT_HANDLED: w = RBUS_ERROR_INVALID_OPERATION; break;
  case RBUSCORE_ERROR_ENTRY_NOT_FOUND: w = RBUS_ERROR_DESTINATION_NOT_FOUND; break;
  default: w = RBUS_ERROR_BUS_ERROR; }
  V_CHECK(r == w, "messaging-core code maps to its documented public error");
  V_CHECK((r == RBUS_ERROR_SUCCESS) == (e == RBUSCORE_SUCCESS), "no core failure becomes success");
  r = CCSPError_to_rbusError(e);
  switch(e) {
  case RBUS_LEGACY_ERR_SUCCESS: w = RBUS_ERROR_SUCCESS; break;
  case RBUS_LEGACY_ERR_MEMORY_ALLOC_FAIL: case RBUS_LEGACY_ERR_NOT_CONNECT: case RBUS_LEGACY_ERR_RESOURCE_EXCEEDED: w = RBUS_ERROR_OUT_OF_RESOURCES; break;
  case RBUS_LEGACY_ERR_TIMEOUT: w = RBUS_ERROR_TIMEOUT; break;
  case RBUS_LEGACY_ERR_NOT_EXIST: w = RBUS_ERROR_DESTINATION_NOT_FOUND; break;
  case RBUS_LEGACY_ERR_INVALID_PARAMETER_NAME: w = RBUS_ERROR_INVALID_NAMESPACE; break;
  case RBUS_LEGACY_ERR_INVALID_PARAMETER_TYPE: w = RBUS_ERROR_INVALID_PARAMETER_TYPE; break;
  case RBUS_LEGACY_ERR_INVALID_PARAMETER_VALUE: w = RBUS_ERROR_INVALID_PARAMETER_VALUE; break;
  case RBUS_LEGACY_ERR_NOT_WRITABLE: w = RBUS_ERROR_NOT_WRITABLE; break;
  default: w = RBUS_ERROR_BUS_ERROR; }
  V_CHECK(r == w, "legacy provider code maps to its documented public error");
  V_CHECK((r == RBUS_ERROR_SUCCESS) == (e == RBUS_LEGACY_ERR_SUCCESS), "no legacy failure becomes success");
  V_REACH("end");
  V_END;
}
