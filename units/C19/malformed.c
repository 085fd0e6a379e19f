//@ desc: a property, list, object or event whose fields are missing, of another kind, of a wrong length, out of range or of an unknown type is refused: an error, no partial list, object, data or filter, and nothing outside the fields is read
//@ functions: rbusProperty_initFromMessage rbusValue_initFromMessage _value_from_bytes rbusPropertyList_initFromMessage rbusObject_initFromMessage rbusEventData_updateFromMessage rbusFilter_InitFromMessage
//@ sources: src/rbus/rbus.c src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_filter.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 8
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60,vf_harness.0:60,vf_harness.1:60,vf_harness.2:60
//@ flags: --object-bits 12
//@ timeout: 60
//@ kind: bounded
//@ bound: every cut and every one-field replacement of the enumerated messages; byte lengths 0..49, contents arbitrary (of strings: fixed)
//@ trusted: bus messages by their contract (C11)
//@ variant: value-cut -DS=0 -DCUT
//@ variant: value-kind -DS=0
//@ variant: object-cut -DS=1 -DCUT
//@ variant: object-kind -DS=1
//@ variant: event-cut -DS=2 -DCUT
//@ variant: event-kind -DS=2
//@ variant: list-count -DS=3
//@ variant: bool-len -DS=4 -DT1=RBUS_BOOLEAN -DOKLEN=1
//@ variant: char-len -DS=4 -DT1=RBUS_CHAR -DOKLEN=1
//@ variant: byte-len -DS=4 -DT1=RBUS_BYTE -DOKLEN=1
//@ variant: i8-len -DS=4 -DT1=RBUS_INT8 -DOKLEN=1
//@ variant: u8-len -DS=4 -DT1=RBUS_UINT8 -DOKLEN=1
//@ variant: datetime-len -DS=4 -DT1=RBUS_DATETIME -DOKLEN=sizeof(rbusDateTime_t)
//@ variant: string-end -DS=5
//@ variant: i16-range -DS=6 -DT1=RBUS_INT16 -DLO=-32768 -DHI=32767
//@ variant: u16-range -DS=6 -DT1=RBUS_UINT16 -DLO=0 -DHI=65535
//@ variant: unknown-type -DS=7
#include "vf.h"
#include <rbus.h>
#include "vf_msg.h"
rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg);
rbusError_t rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg);
#ifdef V_NATIVE
#define SEND { uint8_t const* d; uint32_t n; rbusMessage c; rbusMessage_ToBytes(m, (uint8_t**)&d, &n); rbusMessage_FromBytes(&c, d, n); m = c; }
#else
#define SEND
#endif
static void put(rbusMessage m, char c)
{
  if(c == 's') rbusMessage_SetString(m, "nm");
  else if(c == 'x') rbusMessage_SetInt32(m, RBUS_INT32);
  else if(c == 'o') rbusMessage_SetInt32(m, vf_i32());
  else rbusMessage_SetInt32(m, c - '0');
}
static bool read_(rbusMessage m)
{
#if S == 0 || S >= 4
  rbusProperty_t p = NULL; rbusError_t e = rbusProperty_initFromMessage(&p, m);
  V_CHECK(p != NULL, "the caller always gets a property to release");
  bool ok = e == RBUS_ERROR_SUCCESS; rbusProperty_Release(p); return ok;
#elif S == 1
  static char mark; rbusObject_t o = (rbusObject_t)&mark; rbusError_t e = rbusObject_initFromMessage(&o, m);
  V_CHECK((e == RBUS_ERROR_SUCCESS) == (o != NULL), "an object exactly if it is well formed");
  if(o) rbusObject_Release(o); return e == RBUS_ERROR_SUCCESS;
#elif S == 2
  static char mark; rbusEvent_t ev = {0}; rbusFilter_t f = (rbusFilter_t)&mark; uint32_t a = 0, b = 0; int32_t c = 0; ev.data = (rbusObject_t)&mark;
  rbusError_t e = rbusEventData_updateFromMessage(&ev, &f, &a, &b, &c, m);
  if(e != RBUS_ERROR_SUCCESS) { V_CHECK(ev.data == NULL && f == NULL, "a malformed event has neither data nor filter"); return false; }
  V_CHECK(ev.data != NULL && ev.data != (rbusObject_t)&mark && f != NULL && f != (rbusFilter_t)&mark, "a well formed one has both");
  rbusObject_Release(ev.data); rbusFilter_Release(f); return true;
#else
  static char mark; rbusProperty_t p = (rbusProperty_t)&mark; rbusError_t e = rbusPropertyList_initFromMessage(&p, m);
  V_CHECK(e == RBUS_ERROR_SUCCESS || p == NULL, "no partial list"); if(p) rbusProperty_Release(p); return e == RBUS_ERROR_SUCCESS;
#endif
}
/* well-formed messages, one letter per field: s a name, digit that integer, x RBUS_INT32, o any integer */
#if S == 0
#define TEXT "sxo"
#elif S == 1
#define TEXT "s01sxo1s000"              /* an object with one property and one empty child */
#elif S == 2
#define TEXT "so1" "s01sxo0" "1" "0osxo" "ooo" /* event with an object and a filter */
#endif
V_HARNESS
{
  rbusMessage m;
#if S <= 2
  static char const text[] = TEXT; int n = sizeof text - 1;
  for(int k = 0; k <= n; k++)
  {
    rbusMessage_Init(&m);
#ifdef CUT
    for(int i = 0; i < k; i++) put(m, text[i]);
#else
    for(int i = 0; i < n; i++) if(i != k) put(m, text[i]); else if(text[i] == 's') rbusMessage_SetInt32(m, vf_i32()); else rbusMessage_SetString(m, "7");
#endif
    SEND
    bool ok = read_(m);
    if(k < n) V_CHECK(!ok, "a message with a missing or wrong field is refused"); else V_CHECK(ok, "the well formed message is read");
  }
#elif S == 3
  static int32_t const counts[] = { -1, 3, 100, 0x7fffffff, -2147483647 - 1 };
  for(int k = 0; k < 5; k++) { rbusMessage_Init(&m); rbusMessage_SetInt32(m, counts[k]); for(int i = 0; i < 2; i++) { put(m, 's'); put(m, 'x'); put(m, 'o'); }
    SEND V_CHECK(!read_(m), "a list with an impossible count is refused"); }
#elif S == 4
  static uint8_t const lens[] = { 0, 1, 2, 7, 47, 48, 49 };
  for(int k = 0; k < 7; k++) { uint8_t b[50] = {0}; for(int i = 0; i < lens[k]; i++) b[i] = vf_u8();
    rbusMessage_Init(&m); put(m, 's'); rbusMessage_SetInt32(m, T1); rbusMessage_SetBytes(m, b, lens[k]); SEND
    V_CHECK(read_(m) == (lens[k] == OKLEN), "exactly the type's own length is accepted"); }
#elif S == 5
  for(int n = 1; n <= 4; n++) for(int z = 0; z <= n; z++) { uint8_t b[5] = {0}; for(int i = 0; i < n; i++) { if(i == z) b[i] = 0; else b[i] = (uint8_t)(200 + i); }
    rbusMessage_Init(&m); put(m, 's'); rbusMessage_SetInt32(m, RBUS_STRING); rbusMessage_SetBytes(m, b, n); SEND
    V_CHECK(read_(m) == (z == n - 1), "a string ends with its only null character"); }
#elif S == 6
  static int32_t const xs[] = { LO, HI, 0, LO - 1, HI + 1, 65536 + 5, -65536, 0x7fffffff, -2147483647 - 1 };
  for(int k = 0; k < 9; k++) { rbusMessage_Init(&m); put(m, 's'); rbusMessage_SetInt32(m, T1); rbusMessage_SetInt32(m, xs[k]); SEND
    V_CHECK(read_(m) == (xs[k] >= LO && xs[k] <= HI), "exactly the numbers of the type are accepted"); }
#else
  static int32_t const ts[] = { 19, 99, 0x4ff, 0x500 + 200, -1, 0x7fffffff };
  for(int k = 0; k < 6; k++) { uint8_t b[4] = {0}; b[0] = vf_u8();
    rbusMessage_Init(&m); put(m, 's'); rbusMessage_SetInt32(m, ts[k]); rbusMessage_SetBytes(m, b, 4); SEND
    V_CHECK(!read_(m), "an unknown type is refused"); }
#endif
  V_REACH("end");
  V_END;
}
