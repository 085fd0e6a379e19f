//@ desc: property lists, object trees, nested values and events with and without data and filter arrive with the same names, order, types, contents and structure, consuming exactly their fields
//@ functions: rbusPropertyList_appendToMessage rbusPropertyList_initFromMessage rbusObject_appendToMessage rbusObject_initFromMessage rbusEventData_appendToMessage rbusEventData_updateFromMessage rbusValue_appendToMessage rbusValue_initFromMessage rbusProperty_initFromMessage
//@ sources: src/rbus/rbus.c src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_filter.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 8
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60,vf_harness.0:30,rbusMessage_GetMessage.0:40
//@ flags: --object-bits 12
//@ kind: bounded
//@ bound: the enumerated shapes (lists of up to 3, trees of depth 3), contents arbitrary
//@ defs: -DVF_MSG_FIELDS=40
//@ trusted: bus messages by their contract (C11)
//@ variant: list0 -DS=0
//@ variant: list1 -DS=1
//@ variant: list3 -DS=2
//@ variant: objempty -DS=3
//@ variant: objmulti -DS=4
//@ variant: objtree -DS=5
//@ variant: event -DS=8 -DDATA=0 -DFILT=0
//@ variant: eventdata -DS=8 -DDATA=1 -DFILT=0
//@ variant: eventfilter -DS=8 -DDATA=0 -DFILT=1
//@ variant: eventboth -DS=8 -DDATA=1 -DFILT=1
#include "vf.h"
#include <rbus.h>
#include "vf_msg.h"
void rbusPropertyList_appendToMessage(rbusProperty_t prop, rbusMessage msg);
rbusError_t rbusPropertyList_initFromMessage(rbusProperty_t* prop, rbusMessage msg);
void rbusObject_appendToMessage(rbusObject_t obj, rbusMessage msg);
rbusError_t rbusObject_initFromMessage(rbusObject_t* obj, rbusMessage msg);
void rbusValue_appendToMessage(char const* name, rbusValue_t value, rbusMessage msg);
rbusError_t rbusProperty_initFromMessage(rbusProperty_t* property, rbusMessage msg);
rbusError_t rbusEventData_updateFromMessage(rbusEvent_t* event, rbusFilter_t* filter, uint32_t* interval, uint32_t* duration, int32_t* componentId, rbusMessage msg);
void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, uint32_t interval, uint32_t duration, int32_t componentId, rbusMessage msg);
static rbusProperty_t prop(char const* n, rbusProperty_t next)
{ rbusProperty_t p = rbusProperty_InitInt32(n, vf_i32()); if(next) { rbusProperty_SetNext(p, next); rbusProperty_Release(next); } return p; }
static rbusObject_t obj(char const* n, bool multi, rbusProperty_t ps, rbusObject_t children, rbusObject_t next)
{ rbusObject_t o; if(multi) rbusObject_InitMultiInstance(&o, n); else rbusObject_Init(&o, n);
  if(ps) { rbusObject_SetProperties(o, ps); rbusProperty_Release(ps); }
  if(children) { rbusObject_SetChildren(o, children); rbusObject_Release(children); }
  if(next) { rbusObject_SetNext(o, next); rbusObject_Release(next); }
  return o; }
static void same_obj(rbusObject_t a, rbusObject_t b);
static void same_list(rbusProperty_t a, rbusProperty_t b);
static void same_val(rbusValue_t a, rbusValue_t b)
{
  V_CHECK(b != NULL && rbusValue_GetType(a) == rbusValue_GetType(b), "same type");
  if(rbusValue_GetType(a) == RBUS_INT32) V_CHECK(rbusValue_GetInt32(a) == rbusValue_GetInt32(b), "same content");
  else if(rbusValue_GetType(a) == RBUS_OBJECT) same_obj(rbusValue_GetObject(a), rbusValue_GetObject(b));
  else if(rbusValue_GetType(a) == RBUS_PROPERTY) same_list(rbusValue_GetProperty(a), rbusValue_GetProperty(b));
}
static void same_list(rbusProperty_t a, rbusProperty_t b)
{
  for(; a; a = rbusProperty_GetNext(a), b = rbusProperty_GetNext(b)) {
    V_CHECK(b != NULL, "no property is lost");
    V_CHECK(strcmp(rbusProperty_GetName(a), rbusProperty_GetName(b)) == 0, "same names in the same order");
    same_val(rbusProperty_GetValue(a), rbusProperty_GetValue(b)); }
  V_CHECK(b == NULL, "no property is added");
}
static void same_obj(rbusObject_t a, rbusObject_t b)
{
  V_CHECK(b != NULL, "the object arrives");
  V_CHECK(strcmp(rbusObject_GetName(a), rbusObject_GetName(b)) == 0, "same object name");
  V_CHECK(rbusObject_GetType(a) == rbusObject_GetType(b), "same kind of object");
  same_list(rbusObject_GetProperties(a), rbusObject_GetProperties(b));
  rbusObject_t x = rbusObject_GetChildren(a), y = rbusObject_GetChildren(b);
  for(; x; x = rbusObject_GetNext(x), y = rbusObject_GetNext(y)) {
    V_CHECK(y != NULL, "no child is lost"); same_obj(x, y); }
  V_CHECK(y == NULL, "no child is added");
}
#ifdef V_NATIVE
#define SEND { uint8_t const* d; uint32_t n; rbusMessage c; rbusMessage_ToBytes(m, (uint8_t**)&d, &n); rbusMessage_FromBytes(&c, d, n); m = c; }
#else
#define SEND
#endif
V_HARNESS
{
  rbusMessage m; rbusMessage_Init(&m); int32_t after = vf_i32(), got = 0; static char mark;
#if S <= 2
  rbusProperty_t a = S == 0 ? NULL : S == 1 ? prop("p", NULL) : prop("p", prop("q", prop("pq", NULL))), b = (rbusProperty_t)&mark;
  rbusPropertyList_appendToMessage(a, m); rbusMessage_SetInt32(m, after); SEND
  V_CHECK(rbusPropertyList_initFromMessage(&b, m) == RBUS_ERROR_SUCCESS, "a list that was sent arrives");
  same_list(a, b);
  if(a) rbusProperty_Release(a); if(b) rbusProperty_Release(b);
#elif S <= 5
  rbusObject_t a, b = (rbusObject_t)&mark;
  if(S == 3) a = obj("o", false, NULL, NULL, NULL);
  else if(S == 4) a = obj("o", true, prop("p", prop("q", NULL)), NULL, NULL);
  else a = obj("o", true, prop("p", NULL), obj("c", false, prop("q", NULL), obj("g", false, NULL, NULL, NULL), obj("d", true, NULL, NULL, NULL)), NULL);
  rbusObject_appendToMessage(a, m); rbusMessage_SetInt32(m, after); SEND
  V_CHECK(rbusObject_initFromMessage(&b, m) == RBUS_ERROR_SUCCESS, "an object that was sent arrives");
  same_obj(a, b); rbusObject_Release(a); rbusObject_Release(b);
#elif S <= 7
  rbusValue_t v; rbusProperty_t b = NULL; rbusValue_Init(&v);
  if(S == 6) { rbusObject_t o = obj("o", true, prop("p", NULL), obj("c", false, prop("q", NULL), NULL, NULL), NULL); rbusValue_SetObject(v, o); rbusObject_Release(o); }
  else { rbusProperty_t p = prop("p", prop("q", NULL)); rbusValue_SetProperty(v, p); rbusProperty_Release(p); }
  rbusValue_appendToMessage("n", v, m); rbusMessage_SetInt32(m, after); SEND
  V_CHECK(rbusProperty_initFromMessage(&b, m) == RBUS_ERROR_SUCCESS && strcmp(rbusProperty_GetName(b), "n") == 0, "a value that was sent arrives under its name");
  same_val(v, rbusProperty_GetValue(b)); rbusProperty_Release(b); rbusValue_Release(v);
#else
  rbusEvent_t e = {0}, r = {0}; rbusFilter_t f = NULL, g = (rbusFilter_t)&mark; uint32_t iv = vf_u32(), du = vf_u32(), iv2 = 0, du2 = 0; int32_t id = vf_i32(), id2 = 0;
  e.name = "a.b"; e.type = vf_u32();
  if(DATA) e.data = obj("o", false, prop("p", prop("q", NULL)), NULL, NULL);
  if(FILT) { rbusValue_t v = rbusValue_InitInt32(vf_i32()); rbusFilter_InitRelation(&f, RBUS_FILTER_OPERATOR_LESS_THAN, v); rbusValue_Release(v); }
  rbusEventData_appendToMessage(&e, f, iv, du, id, m); rbusMessage_SetInt32(m, after); SEND
  V_CHECK(rbusEventData_updateFromMessage(&r, &g, &iv2, &du2, &id2, m) == RBUS_ERROR_SUCCESS, "an event that was sent arrives");
  V_CHECK(strcmp(e.name, r.name) == 0 && e.type == r.type, "same event");
  V_CHECK((r.data != NULL) == DATA, "with data if there was data"); if(DATA) same_obj(e.data, r.data);
  V_CHECK((g != NULL) == FILT, "with a filter if there was a filter");
  if(FILT) V_CHECK(rbusFilter_GetType(g) == RBUS_FILTER_EXPRESSION_RELATION && rbusFilter_GetRelationOperator(g) == RBUS_FILTER_OPERATOR_LESS_THAN && rbusValue_GetInt32(rbusFilter_GetRelationValue(g)) == rbusValue_GetInt32(rbusFilter_GetRelationValue(f)), "the same filter");
  V_CHECK(iv == iv2 && du == du2 && id == id2, "same interval, duration and receiver");
#endif
  V_CHECK(rbusMessage_GetInt32(m, &got) == RT_OK && got == after, "exactly its fields are consumed");
  V_REACH("end");
  V_END;
}
