//@ desc: every scalar value, string and byte string put into a message under a name is read back as the same type and content, consuming exactly its fields
//@ functions: rbusValue_appendToMessage rbusProperty_initFromMessage rbusValue_initFromMessage _value_from_bytes rbusValue_SetTLV rbusValue_GetV rbusValue_GetL
//@ sources: src/rbus/rbus.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_filter.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 12
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60
//@ flags: --object-bits 12
//@ trusted: bus messages by their contract (C11)
//@ variant: bool -DT1=RBUS_BOOLEAN
//@ variant: char -DT1=RBUS_CHAR
//@ variant: byte -DT1=RBUS_BYTE
//@ variant: i8 -DT1=RBUS_INT8
//@ variant: u8 -DT1=RBUS_UINT8
//@ variant: i16 -DT1=RBUS_INT16
//@ variant: u16 -DT1=RBUS_UINT16
//@ variant: i32 -DT1=RBUS_INT32
//@ variant: u32 -DT1=RBUS_UINT32
//@ variant: i64 -DT1=RBUS_INT64
//@ variant: u64 -DT1=RBUS_UINT64
//@ variant: single -DT1=RBUS_SINGLE
//@ variant: double -DT1=RBUS_DOUBLE
//@ variant: datetime -DT1=RBUS_DATETIME
//@ variant: none -DT1=RBUS_NONE
//@ variant: novalue -DT1=RBUS_NONE -DNOVALUE
//@ variant: nullstr -DT1=RBUS_STRING -DN=-1
//@ variant: str0 -DT1=RBUS_STRING -DN=0
//@ variant: str1 -DT1=RBUS_STRING -DN=1 kind=bounded bound=strings,of,length,1
//@ variant: str7 -DT1=RBUS_STRING -DN=7 kind=bounded bound=strings,of,length,7
//@ variant: bytes0 -DT1=RBUS_BYTES -DN=0
//@ variant: bytes1 -DT1=RBUS_BYTES -DN=1 kind=bounded bound=byte,strings,of,length,1
//@ variant: bytes9 -DT1=RBUS_BYTES -DN=9 kind=bounded bound=byte,strings,of,length,9
#include "vf.h"
#ifdef V_NATIVE
#include <rbus.h>
#include "rbus_value.h"
#include "rbus_buffer.h"
#endif
#include "rbus_value.c"
#include "vf_value.h"
#include "vf_msg.h"
void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg);
rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg);
V_HARNESS
{
  rbusMessage m; rbusMessage_Init(&m); rbusValue_t v, w; rbusProperty_t p = NULL;
  rbusValue_Init(&v);
#ifdef N
  uint8_t b[16] = {0}; for(int i = 0; i < N; i++) { b[i] = vf_u8(); if(T1 == RBUS_STRING) V_ASSUME(b[i] != 0); }
  if(T1 == RBUS_STRING) rbusValue_SetString(v, N < 0 ? NULL : (char*)b); else rbusValue_SetBytes(v, b, N);
#else
  vf_scalar_into(v, T1);
#endif
  int32_t after = vf_i32(), got = 0;
#ifdef NOVALUE
  rbusValue_appendToMessage("a.b", NULL, m);
#else
  rbusValue_appendToMessage("a.b", v, m);
#endif
  rbusMessage_SetInt32(m, after);
#ifdef V_NATIVE
  { uint8_t const* d; uint32_t n; rbusMessage c; rbusMessage_ToBytes(m, (uint8_t**)&d, &n); rbusMessage_FromBytes(&c, d, n); m = c; }
#endif
  V_CHECK(rbusProperty_initFromMessage(&p, m) == RBUS_ERROR_SUCCESS && p != NULL, "a value put into a message is read back");
  V_CHECK(strcmp(rbusProperty_GetName(p), "a.b") == 0, "with its name");
  w = rbusProperty_GetValue(p);
  V_CHECK(w != NULL && rbusValue_GetType(w) == T1, "with its type");
#ifdef N
  int n = -2; 
  if(T1 == RBUS_STRING) { char const* s = rbusValue_GetString(w, NULL); V_CHECK((s == NULL) == (N < 0), "a null string stays null and others do not become null");
    if(s) { for(int i = 0; i < N; i++) V_CHECK((uint8_t)s[i] == b[i], "same characters"); V_CHECK(N < 0 || s[N < 0 ? 0 : N] == 0, "same length"); } }
  else { uint8_t const* s = rbusValue_GetBytes(w, &n); V_CHECK(n == N, "same length"); for(int i = 0; i < N; i++) V_CHECK(s[i] == b[i], "same bytes"); }
#else
  if(T1 == RBUS_SINGLE) V_CHECK(w->d.f32 == v->d.f32 || (w->d.f32 != w->d.f32 && v->d.f32 != v->d.f32), "same number");
  else if(T1 == RBUS_DOUBLE) V_CHECK(w->d.f64 == v->d.f64 || (w->d.f64 != w->d.f64 && v->d.f64 != v->d.f64), "same number");
  else if(T1 != RBUS_NONE) V_CHECK(vf_scalar_eq(v, w), "same content");
#endif
  V_CHECK(rbusMessage_GetInt32(m, &got) == RT_OK && got == after, "exactly the value's fields are consumed");
  rbusProperty_Release(p); rbusValue_Release(v);
  V_REACH("end");
  V_END;
}
