//@ desc: a property list keeps its properties in the order appended, each with its name and value; typed property and object accessors store and read exactly the given content for every type; children and siblings stay attached in order
//@ functions: rbusProperty_Init rbusProperty_Append rbusProperty_Count rbusProperty_SetName rbusProperty_GetName rbusProperty_SetValue rbusProperty_SetNext rbusProperty_GetNext rbusProperty_SetBoolean rbusProperty_SetChar rbusProperty_SetByte rbusProperty_SetInt8 rbusProperty_SetUInt8 rbusProperty_SetInt16 rbusProperty_SetUInt16 rbusProperty_SetInt32 rbusProperty_SetUInt32 rbusProperty_SetInt64 rbusProperty_SetUInt64 rbusProperty_SetSingle rbusProperty_SetDouble rbusProperty_SetTime rbusProperty_SetString rbusProperty_SetBytes rbusObject_SetChildren rbusObject_SetNext rbusObject_SetParent rbusObject_GetPropertyString rbusObject_GetPropertyBytes
//@ sources: src/rbus/rbus_value.c src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ unwind: 8
//@ unwindset: memcpy.0:80,memset.0:80,same.0:49
//@ flags: --object-bits 12
//@ variant: order -DU=1 kind=bounded bound=lists,of,up,to,5,properties
//@ variant: typed_property -DU=2
//@ variant: typed_object -DU=3
//@ variant: tree -DU=4 kind=bounded bound=one,object,with,three,children
//@ variant: init -DU=5
#include "vf.h"
#include <rbus.h>
#define SCALARS(X) X(Boolean, bool, RBUS_BOOLEAN) X(Char, char, RBUS_CHAR) X(Byte, unsigned char, RBUS_BYTE) X(Int8, int8_t, RBUS_INT8) X(UInt8, uint8_t, RBUS_UINT8) \
  X(Int16, int16_t, RBUS_INT16) X(UInt16, uint16_t, RBUS_UINT16) X(Int32, int32_t, RBUS_INT32) X(UInt32, uint32_t, RBUS_UINT32) X(Int64, int64_t, RBUS_INT64) \
  X(UInt64, uint64_t, RBUS_UINT64) X(Single, float, RBUS_SINGLE) X(Double, double, RBUS_DOUBLE)
static bool same(void const* a, void const* b, unsigned n)
{ unsigned char const *p = a, *q = b; for(unsigned i = 0; i < n; i++) if(p[i] != q[i]) return false; return true; }
static rbusDateTime_t any_time(void)
{ rbusDateTime_t t = {0}; t.m_time.tm_sec = vf_i32(); t.m_time.tm_min = vf_i32(); t.m_time.tm_hour = vf_i32(); t.m_time.tm_mday = vf_i32(); t.m_time.tm_mon = vf_i32(); t.m_time.tm_year = vf_i32(); t.m_tz.m_tzhour = vf_i32(); t.m_tz.m_tzmin = vf_i32(); t.m_tz.m_isWest = vf_bool(); return t; }
static bool same_time(rbusDateTime_t const* a, rbusDateTime_t const* b)
{ return a && a->m_time.tm_sec == b->m_time.tm_sec && a->m_time.tm_min == b->m_time.tm_min && a->m_time.tm_hour == b->m_time.tm_hour && a->m_time.tm_mday == b->m_time.tm_mday && a->m_time.tm_mon == b->m_time.tm_mon && a->m_time.tm_year == b->m_time.tm_year && a->m_tz.m_tzhour == b->m_tz.m_tzhour && a->m_tz.m_tzmin == b->m_tz.m_tzmin && a->m_tz.m_isWest == b->m_tz.m_isWest; }
V_HARNESS
{
#if U == 1
  for(int n = 1; n <= 5; n++)
  {
    rbusProperty_t head = NULL, p; int32_t x[5]; char name[2] = "a";
    for(int i = 0; i < n; i++)
    {
      x[i] = vf_i32(); name[0] = (char)('a' + (i % 3));                     /* a list may repeat a name */
      p = rbusProperty_InitInt32(name, x[i]);
      if(head) { rbusProperty_Append(head, p); rbusProperty_Release(p); } else head = p;
      V_CHECK(rbusProperty_Count(head) == (uint32_t)i + 1, "the list grows by one");
    }
    p = head;
    for(int i = 0; i < n; i++) { V_CHECK(p && rbusProperty_GetName(p)[0] == 'a' + i % 3 && rbusProperty_GetName(p)[1] == 0 && rbusProperty_GetInt32(p) == x[i], "in order, with name and value"); p = rbusProperty_GetNext(p); }
    V_CHECK(p == NULL, "and nothing more");
    rbusProperty_SetName(head, "zz"); V_CHECK(strcmp(rbusProperty_GetName(head), "zz") == 0 && rbusProperty_Count(head) == (uint32_t)n, "renaming changes the name only");
    rbusProperty_SetName(head, NULL); V_CHECK(rbusProperty_GetName(head) == NULL, "and removes it");
    rbusProperty_Release(head);
  }
  V_CHECK(rbusProperty_Count(NULL) == 0, "no list has no properties");
#elif U == 2 || U == 5
#define ONE(N, T, E) { T x, y; uint64_t r = vf_u64(); if(E == RBUS_BOOLEAN) r &= 1; memcpy(&x, &r, sizeof x); memset(&y, 0, sizeof y); \
    MAKE(N, x) V_CHECK(rbusValue_GetType(rbusProperty_GetValue(p)) == E, #N ": the type"); y = rbusProperty_Get##N(p); V_CHECK(same(&x, &y, sizeof x), #N ": the content"); memset(&y, 0, sizeof y); \
    V_CHECK(rbusProperty_Get##N##Ex(p, &y) == RBUS_VALUE_ERROR_SUCCESS && same(&x, &y, sizeof x), #N ": checked read"); DONE }
  rbusDateTime_t t = any_time();
#if U == 2
#define MAKE(N, x) rbusProperty_Set##N(p, x);
#define DONE
  rbusProperty_t p = NULL; rbusProperty_Init(&p, "p", NULL);
#else
#define MAKE(N, x) rbusProperty_t p = rbusProperty_Init##N("p", x), q = rbusProperty_Append##N(p, "q", x); V_CHECK(rbusProperty_GetNext(p) == q && strcmp(rbusProperty_GetName(q), "q") == 0 && rbusProperty_Count(p) == 2, #N ": appended"); \
     { rbusProperty_t lone = rbusProperty_Append##N(NULL, "z", x); V_CHECK(lone && rbusProperty_Count(lone) == 1, #N ": starts a list"); rbusProperty_Release(lone); }
#define DONE rbusProperty_Release(p);
#endif
  SCALARS(ONE)
  { rbusDateTime_t const* y = NULL; MAKE(Time, &t) V_CHECK(same_time(rbusProperty_GetTime(p), &t) && rbusProperty_GetTimeEx(p, &y) == RBUS_VALUE_ERROR_SUCCESS && y == rbusProperty_GetTime(p), "Time: the content"); DONE }
  { int n = -1; char const* s = NULL; MAKE(String, "xyz") s = rbusProperty_GetString(p, &n); V_CHECK(s && strcmp(s, "xyz") == 0 && n == 3, "String: the content"); n = -1; V_CHECK(rbusProperty_GetStringEx(p, &s, &n) == RBUS_VALUE_ERROR_SUCCESS && n == 3, "String: checked read"); DONE }
  { int n = -1; uint8_t in[3] = { vf_u8(), vf_u8(), vf_u8() }; uint8_t const* s;
#if U == 2
    rbusProperty_SetBytes(p, in, 3);
#else
    rbusProperty_t p = rbusProperty_InitBytes("p", in, 3), q = rbusProperty_AppendBytes(p, "q", in, 3); V_CHECK(rbusProperty_GetNext(p) == q, "Bytes: appended");
#endif
    s = rbusProperty_GetBytes(p, &n); V_CHECK(s && n == 3 && same(s, in, 3), "Bytes: the content"); DONE }
#elif U == 3
  rbusObject_t o = NULL; rbusObject_Init(&o, "o");
#define ONE(N, T, E) { T x, y; uint64_t r = vf_u64(); if(E == RBUS_BOOLEAN) r &= 1; memcpy(&x, &r, sizeof x); memset(&y, 0, sizeof y); \
    rbusObject_SetProperty##N(o, "n", x); V_CHECK(rbusObject_GetProperty##N(o, "n", &y) == RBUS_VALUE_ERROR_SUCCESS && same(&x, &y, sizeof x), #N ": the content"); \
    V_CHECK(rbusValue_GetType(rbusObject_GetValue(o, "n")) == E && rbusProperty_Count(rbusObject_GetProperties(o)) == 1, #N ": the type, held once"); memset(&y, 1, sizeof y); T z = y; \
    V_CHECK(rbusObject_GetProperty##N(o, "m", &y) == RBUS_VALUE_ERROR_NOT_FOUND && same(&y, &z, sizeof y), #N ": an unknown name is not found"); }
  SCALARS(ONE)
  { rbusDateTime_t t = any_time(); rbusDateTime_t const* y = NULL; rbusObject_SetPropertyTime(o, "n", &t); V_CHECK(rbusObject_GetPropertyTime(o, "n", &y) == RBUS_VALUE_ERROR_SUCCESS && same_time(y, &t), "Time: the content"); int32_t i = 3; V_CHECK(rbusObject_GetPropertyInt32(o, "n", &i) == RBUS_VALUE_ERROR_TYPE && i == 3, "another type is refused"); }
  { int n = -1; char const* s = NULL; rbusObject_SetPropertyString(o, "n", "xyz"); V_CHECK(rbusObject_GetPropertyString(o, "n", &s, &n) == RBUS_VALUE_ERROR_SUCCESS && s && strcmp(s, "xyz") == 0 && n == 3, "String: the content"); V_CHECK(rbusObject_GetPropertyString(o, "m", &s, &n) == RBUS_VALUE_ERROR_NOT_FOUND, "String: unknown name"); }
  { int n = -1; uint8_t in[3] = { vf_u8(), vf_u8(), vf_u8() }; uint8_t const* s = NULL; rbusObject_SetPropertyBytes(o, "n", in, 3); V_CHECK(rbusObject_GetPropertyBytes(o, "n", &s, &n) == RBUS_VALUE_ERROR_SUCCESS && s && n == 3 && same(s, in, 3), "Bytes: the content"); V_CHECK(rbusObject_GetPropertyBytes(o, "m", &s, &n) == RBUS_VALUE_ERROR_NOT_FOUND, "Bytes: unknown name"); }
  { rbusProperty_t p = NULL, q = NULL; rbusProperty_Init(&p, "x", NULL); rbusObject_SetPropertyProperty(o, "n", p); V_CHECK(rbusObject_GetPropertyProperty(o, "n", &q) == RBUS_VALUE_ERROR_SUCCESS && p == q, "Property: the content"); }
  { rbusObject_t p = NULL, q = NULL; rbusObject_Init(&p, "x"); rbusObject_SetPropertyObject(o, "n", p); V_CHECK(rbusObject_GetPropertyObject(o, "n", &q) == RBUS_VALUE_ERROR_SUCCESS && p == q, "Object: the content"); }
#else
  rbusObject_t o = NULL, c[3], q; rbusObject_Init(&o, NULL); V_CHECK(rbusObject_GetName(o) == NULL && rbusObject_GetChildren(o) == NULL && rbusObject_GetProperties(o) == NULL && rbusObject_GetParent(o) == NULL && rbusObject_GetNext(o) == NULL && rbusObject_GetType(o) == RBUS_OBJECT_SINGLE_INSTANCE, "a new object is empty");
  char const* nm[3] = { "c0", "c1", "c2" };
  for(int i = 0; i < 3; i++) { if(i == 1) { rbusObject_InitMultiInstance(&c[i], nm[i]); V_CHECK(rbusObject_GetType(c[i]) == RBUS_OBJECT_MULTI_INSTANCE, "a table"); } else rbusObject_Init(&c[i], nm[i]); rbusObject_SetParent(c[i], o); rbusObject_SetPropertyInt32(c[i], "v", i); }
  rbusObject_SetChildren(o, c[0]); rbusObject_SetNext(c[0], c[1]); rbusObject_SetNext(c[1], c[2]); for(int i = 0; i < 3; i++) rbusObject_Release(c[i]);
  rbusObject_SetName(o, "root"); rbusObject_SetPropertyString(o, "v", "top");
  q = rbusObject_GetChildren(o);
  for(int i = 0; i < 3; i++) { int32_t y = -1; V_CHECK(q == c[i] && strcmp(rbusObject_GetName(q), nm[i]) == 0 && rbusObject_GetParent(q) == o && rbusObject_GetPropertyInt32(q, "v", &y) == RBUS_VALUE_ERROR_SUCCESS && y == i, "children stay attached, in order, with their properties"); q = rbusObject_GetNext(q); }
  V_CHECK(q == NULL && strcmp(rbusObject_GetName(o), "root") == 0, "and nothing more"); rbusObject_Release(o);
#endif
  V_REACH("end");
  V_END;
}
