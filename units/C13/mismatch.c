//@ desc: a checked typed read succeeds exactly for the stored type; any other type gives the type error and leaves the output alone; absent values give the documented results
//@ functions: rbusValue_GetBooleanEx rbusValue_GetCharEx rbusValue_GetByteEx rbusValue_GetInt8Ex rbusValue_GetUInt8Ex rbusValue_GetInt16Ex rbusValue_GetUInt16Ex rbusValue_GetInt32Ex rbusValue_GetUInt32Ex rbusValue_GetInt64Ex rbusValue_GetUInt64Ex rbusValue_GetSingleEx rbusValue_GetDoubleEx rbusValue_GetTimeEx rbusValue_GetStringEx rbusValue_GetBytesEx rbusValue_GetPropertyEx rbusValue_GetObjectEx rbusValue_GetL rbusValue_GetV
//@ sources: src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ unwind: 20
#include "vf.h"
#include "rbus_value.c"
#include "vf_value.h"
V_HARNESS
{
  struct _rbusValue v = {0};
  rbusValueType_t t = vf_u32();  /* any tag at all */
  if(t == RBUS_STRING || t == RBUS_BYTES || t == RBUS_PROPERTY || t == RBUS_OBJECT || t == RBUS_DATETIME) { v.type = t; } else { v.d.u64 = vf_u64(); v.type = t; if(t == RBUS_BOOLEAN) v.d.b = v.d.u8 & 1; }
  rbusValueError_t e;
#define ONE(N, T, E) { T x = 1; e = rbusValue_Get##N##Ex(&v, &x); if(t == E) V_CHECK(e == RBUS_VALUE_ERROR_SUCCESS, #N " read of its own type succeeds"); else V_CHECK(e == RBUS_VALUE_ERROR_TYPE && x == 1, #N " read of another type fails and leaves the output alone"); }
  ONE(Boolean, bool, RBUS_BOOLEAN) ONE(Char, char, RBUS_CHAR) ONE(Byte, unsigned char, RBUS_BYTE) ONE(Int8, int8_t, RBUS_INT8) ONE(UInt8, uint8_t, RBUS_UINT8)
  ONE(Int16, int16_t, RBUS_INT16) ONE(UInt16, uint16_t, RBUS_UINT16) ONE(Int32, int32_t, RBUS_INT32) ONE(UInt32, uint32_t, RBUS_UINT32) ONE(Int64, int64_t, RBUS_INT64)
  ONE(UInt64, uint64_t, RBUS_UINT64) ONE(Single, float, RBUS_SINGLE) ONE(Double, double, RBUS_DOUBLE)
#define PTR(N, T, IN, ...) { T mark = (T)&v; T x = mark; e = rbusValue_Get##N##Ex(&v, &x __VA_ARGS__); if(IN) V_CHECK(e == RBUS_VALUE_ERROR_SUCCESS && (t == RBUS_DATETIME || x == NULL), #N " read of its own type succeeds"); else V_CHECK(e == RBUS_VALUE_ERROR_TYPE && x == mark, #N " read of another type fails and leaves the output alone"); }
  int len = 77;
  PTR(Time, rbusDateTime_t const*, t == RBUS_DATETIME) PTR(Property, rbusProperty_t, t == RBUS_PROPERTY) PTR(Object, rbusObject_t, t == RBUS_OBJECT)
  PTR(String, char const*, t == RBUS_STRING || t == RBUS_BYTES, , &len) if(t != RBUS_STRING && t != RBUS_BYTES) V_CHECK(len == 77, "length left alone"); len = 77;
  PTR(Bytes, uint8_t const*, t == RBUS_STRING || t == RBUS_BYTES, , &len) if(t != RBUS_STRING && t != RBUS_BYTES) V_CHECK(len == 77, "length left alone");
  V_CHECK(rbusValue_GetType(&v) == t && v.type == t, "reads leave the value alone");
  V_CHECK(rbusValue_GetType(NULL) == RBUS_NONE && rbusValue_GetString(NULL, NULL) == NULL && rbusValue_GetBytes(NULL, NULL) == NULL && rbusValue_GetTime(NULL) == NULL && rbusValue_GetV(NULL) == NULL, "nothing is read from no value");
  char const* s = "x"; uint8_t const* b = (uint8_t const*)s; V_CHECK(rbusValue_GetStringEx(NULL, &s, NULL) == RBUS_VALUE_ERROR_NULL && rbusValue_GetBytesEx(NULL, &b, NULL) == RBUS_VALUE_ERROR_NULL && s && b, "a checked read of no value says so");
  V_CHECK(t < RBUS_NONE || rbusValue_GetL(&v) == vf_scalar_size(t), "raw length is the size of the type");
  if(t == RBUS_INT32) V_REACH("a number"); if(t == RBUS_BYTES) V_REACH("bytes"); if(t == RBUS_NONE) V_REACH("nothing");
  V_END;
}
