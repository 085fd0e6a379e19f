//@ desc: every setter that replaces a held reference (by another, by the same, by nothing, or by one only reachable through the replaced one) keeps exactly the references it should: counts are exact, nothing referenced is destroyed, nothing is leaked, everything is destroyed when the last reference goes
//@ functions: rbusValue_SetPointer rbusValue_SetProperty rbusValue_SetObject rbusValue_SetString rbusValue_SetInt32 rbusValue_Release rbusProperty_SetValue rbusProperty_SetNext rbusProperty_Append rbusProperty_SetName rbusProperty_Release rbusObject_SetProperties rbusObject_SetProperty rbusObject_SetPropertyValue rbusObject_SetChildren rbusObject_SetNext rbusObject_Release rtRetainable_retainInternal rtRetainable_releaseInternal
//@ sources: src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ flags: --memory-leak-check
//@ kind: bounded
//@ bound: listed histories of setter calls, one per setter
//@ unwind: 12
//@ unwindset: memcpy.0:70,memset.0:200
//@ variant: pointer -DU=1
//@ variant: value_property -DU=2
//@ variant: value_object -DU=3
//@ variant: value_overwrite -DU=4
//@ variant: property_value -DU=5
//@ variant: property_next -DU=6
//@ variant: object_properties -DU=7
//@ variant: object_property -DU=8
//@ variant: object_children -DU=9
//@ variant: object_next -DU=10
#include "vf.h"
#include <rbus.h>
#include "rtRetainable.h"
#define RC(x) (((rtRetainable*)(x))->refCount)
static rbusValue_t val(int x) { rbusValue_t v = NULL; rbusValue_Init(&v); rbusValue_SetInt32(v, x); return v; }
static rbusProperty_t prop(char const* n) { rbusProperty_t p = NULL; rbusValue_t v = val(7); rbusProperty_Init(&p, n, v); rbusValue_Release(v); return p; }
static rbusObject_t obj(char const* n) { rbusObject_t o = NULL; rbusObject_Init(&o, n); return o; }
V_HARNESS
{
#if U == 1
  rbusValue_t a = val(1), b = val(2), h = NULL;
  rbusValue_SetPointer(&h, a); V_CHECK(h == a && RC(a) == 2, "held reference counted");
  rbusValue_SetPointer(&h, a); V_CHECK(h == a && RC(a) == 2, "replaced by itself: unchanged");
  rbusValue_Release(a);                                                    /* h has the only reference now */
  rbusValue_SetPointer(&h, h); V_CHECK(rbusValue_GetInt32(h) == 1 && RC(h) == 1, "replaced by itself: still alive");
  rbusValue_SetPointer(&h, b); V_CHECK(h == b && RC(b) == 2 && rbusValue_GetInt32(h) == 2, "replaced by another");
  rbusValue_SetPointer(&h, NULL); V_CHECK(h == NULL && RC(b) == 1, "replaced by nothing");
  rbusValue_Retain(b); rbusValue_Releases(2, b, b);
#elif U == 2 || U == 3
#if U == 2
#define MK(n) prop(n)
#define SET rbusValue_SetProperty
#define GET rbusValue_GetProperty
#define REL rbusProperty_Release
  rbusProperty_t a, b;
#else
#define MK(n) obj(n)
#define SET rbusValue_SetObject
#define GET rbusValue_GetObject
#define REL rbusObject_Release
  rbusObject_t a, b;
#endif
  rbusValue_t v = val(1); a = MK("a"); b = MK("b");
  SET(v, a); V_CHECK(GET(v) == a && RC(a) == 2, "held reference counted");
  SET(v, a); V_CHECK(GET(v) == a && RC(a) == 2, "replaced by itself: unchanged");
  REL(a);
  SET(v, GET(v)); V_CHECK(GET(v) == a && RC(a) == 1, "replaced by itself: still alive");
  SET(v, b); V_CHECK(GET(v) == b && RC(b) == 2, "replaced by another");
  SET(v, NULL); V_CHECK(GET(v) == NULL && RC(b) == 1, "replaced by nothing");
  SET(v, b); rbusValue_SetString(v, "s"); V_CHECK(RC(b) == 1, "storing text releases it");
  SET(v, b); rbusValue_SetBytes(v, (uint8_t const*)"xy", 2); V_CHECK(RC(b) == 1, "storing bytes releases it");
  SET(v, b); rbusValue_SetInt32(v, 4); V_CHECK(RC(b) == 1, "storing a number releases it");
  SET(v, b); rbusValue_Release(v); V_CHECK(RC(b) == 1, "destroying the value releases it");
  REL(b);
#elif U == 4
  rbusValue_t v = val(1); rbusDateTime_t t = {0};
  rbusValue_SetString(v, "a"); rbusValue_SetString(v, "bc"); rbusValue_SetBytes(v, (uint8_t const*)"q", 1); rbusValue_SetString(v, NULL);
  rbusValue_SetBytes(v, (uint8_t const*)"q", 1); rbusValue_SetUInt64(v, 3); rbusValue_SetString(v, "d"); rbusValue_SetTime(v, &t);
  rbusValue_SetString(v, "d"); rbusValue_t w = val(2); rbusValue_Copy(w, v); rbusValue_Copy(v, w); rbusValue_SetString(w, "e");
  rbusValue_SetInt8(v, 1); rbusValue_Copy(w, v);
  rbusValue_Release(w); rbusValue_Retain(v); rbusValue_Release(v); V_CHECK(rbusValue_GetInt8(v) == 1, "not destroyed while a reference is left"); rbusValue_Release(v);
#elif U == 5
  rbusProperty_t p = prop("p"); rbusValue_t a = val(1), b = val(2);
  rbusProperty_SetValue(p, a); V_CHECK(rbusProperty_GetValue(p) == a && RC(a) == 2, "held reference counted");
  rbusProperty_SetValue(p, a); V_CHECK(RC(a) == 2, "replaced by itself: unchanged");
  rbusValue_Release(a); rbusProperty_SetValue(p, rbusProperty_GetValue(p)); V_CHECK(rbusValue_GetInt32(rbusProperty_GetValue(p)) == 1 && RC(a) == 1, "replaced by itself: still alive");
  rbusProperty_SetValue(p, b); V_CHECK(rbusProperty_GetValue(p) == b && RC(b) == 2, "replaced by another");
  rbusProperty_SetInt32(p, 9); V_CHECK(RC(b) == 1 && rbusProperty_GetInt32(p) == 9, "typed set releases the old value");
  rbusProperty_SetString(p, "x"); rbusProperty_SetBytes(p, (uint8_t const*)"yz", 2); rbusProperty_SetName(p, "q"); rbusProperty_SetName(p, NULL); rbusProperty_SetName(p, "r");
  rbusProperty_SetValue(p, b); rbusProperty_SetValue(p, NULL); V_CHECK(RC(b) == 1, "replaced by nothing");
  rbusProperty_SetValue(p, b); rbusProperty_Release(p); V_CHECK(RC(b) == 1, "destroying the property releases its value"); rbusValue_Release(b);
#elif U == 6
  rbusProperty_t p = prop("p"), a = prop("a"), b = prop("b");
  rbusProperty_SetNext(p, a); V_CHECK(RC(a) == 2, "held reference counted");
  rbusProperty_SetNext(a, b); rbusProperty_Release(b); rbusProperty_Release(a);   /* p -> a -> b, only through p */
  rbusProperty_SetNext(p, rbusProperty_GetNext(p)); V_CHECK(rbusProperty_Count(p) == 3 && RC(a) == 1, "replaced by itself: still alive");
  rbusProperty_SetNext(p, rbusProperty_GetNext(rbusProperty_GetNext(p))); V_CHECK(rbusProperty_GetNext(p) == b && RC(b) == 1 && rbusProperty_Count(p) == 2, "the successor moves up");
  rbusProperty_t c = rbusProperty_AppendInt32(p, "c", 3), d = rbusProperty_AppendString(p, "d", "t"); V_CHECK(RC(c) == 1 && RC(d) == 1 && rbusProperty_Count(p) == 4, "appended properties belong to the list");
  rbusProperty_Append(p, NULL); V_CHECK(rbusProperty_Count(p) == 4, "appending nothing keeps the list");
  rbusProperty_Retain(d); rbusProperty_Release(p); V_CHECK(RC(d) == 1, "destroying the list releases each property once"); rbusProperty_Release(d);
#elif U == 7
  rbusObject_t o = obj("o"); rbusProperty_t a = prop("a"), b = prop("b");
  rbusObject_SetProperties(o, a); V_CHECK(RC(a) == 2, "held reference counted");
  rbusProperty_SetNext(a, b); rbusProperty_Release(b); rbusProperty_Release(a);
  rbusObject_SetProperties(o, rbusObject_GetProperties(o)); V_CHECK(RC(a) == 1 && rbusProperty_Count(rbusObject_GetProperties(o)) == 2, "replaced by itself: still alive");
  rbusObject_SetProperties(o, rbusProperty_GetNext(rbusObject_GetProperties(o))); V_CHECK(rbusObject_GetProperties(o) == b && RC(b) == 1, "the successor moves up");
  rbusObject_SetProperties(o, NULL); V_CHECK(rbusObject_GetProperties(o) == NULL, "replaced by nothing");
  rbusObject_Release(o);
#elif U == 8
  rbusObject_t o = obj("o"); rbusProperty_t a = prop("a"), b = prop("b"), c = prop("c"), b2 = prop("b"), a2 = prop("a"), c2 = prop("c"); rbusValue_t v = val(5);
  rbusObject_SetProperty(o, a); rbusObject_SetProperty(o, b); rbusObject_SetProperty(o, c);
  V_CHECK(RC(a) == 2 && RC(b) == 2 && RC(c) == 2 && rbusProperty_Count(rbusObject_GetProperties(o)) == 3, "each property held once");
  rbusObject_SetProperty(o, b); V_CHECK(RC(b) == 2 && rbusProperty_Count(rbusObject_GetProperties(o)) == 3, "setting a property the object has changes nothing");
  rbusProperty_Release(b); rbusObject_SetProperty(o, b2); V_CHECK(RC(b2) == 2 && RC(c) == 2, "middle property replaced");
  rbusProperty_Release(a); rbusObject_SetProperty(o, a2); V_CHECK(RC(a2) == 2 && RC(b2) == 2, "first property replaced");
  rbusProperty_Release(c); rbusObject_SetProperty(o, c2); V_CHECK(RC(c2) == 2 && rbusProperty_Count(rbusObject_GetProperties(o)) == 3, "last property replaced");
  rbusObject_SetValue(o, "b", v); V_CHECK(RC(v) == 2 && rbusProperty_GetValue(b2) == v, "value set in place");
  rbusObject_SetValue(o, "d", v); V_CHECK(RC(v) == 3 && rbusProperty_Count(rbusObject_GetProperties(o)) == 4, "value set under a new name");
  rbusObject_SetPropertyInt32(o, "d", 4); V_CHECK(RC(v) == 2, "replaced value released");
  rbusObject_Release(o); V_CHECK(RC(a2) == 1, "destroying the object releases its first property"); rbusProperty_Release(a2); V_CHECK(RC(b2) == 1 && RC(v) == 2, "and the list is released with it");
  rbusProperty_Release(b2); rbusProperty_Release(c2); V_CHECK(RC(v) == 1, "and the values"); rbusValue_Release(v);
#elif U == 9
  rbusObject_t o = obj("o"), a = obj("a"), b = obj("b");
  rbusObject_SetChildren(o, a); V_CHECK(RC(a) == 2, "held reference counted");
  rbusObject_SetNext(a, b); rbusObject_SetParent(a, o); V_CHECK(RC(o) == 1, "the parent link is not a reference");
  rbusObject_Release(b); rbusObject_Release(a);
  rbusObject_SetChildren(o, rbusObject_GetChildren(o)); V_CHECK(RC(a) == 1 && rbusObject_GetNext(a) == b, "replaced by itself: still alive");
  rbusObject_SetChildren(o, rbusObject_GetNext(rbusObject_GetChildren(o))); V_CHECK(rbusObject_GetChildren(o) == b && RC(b) == 1, "the sibling moves up");
  rbusObject_SetName(o, "x"); rbusObject_SetName(o, NULL);
  rbusObject_Release(o);
#else
  rbusObject_t o = obj("o"), a = obj("a"), b = obj("b");
  rbusObject_SetNext(o, a); V_CHECK(RC(a) == 2, "held reference counted");
  rbusObject_SetNext(a, b); rbusObject_Release(b); rbusObject_Release(a);
  rbusObject_SetNext(o, rbusObject_GetNext(o)); V_CHECK(RC(a) == 1, "replaced by itself: still alive");
  rbusObject_SetNext(o, rbusObject_GetNext(rbusObject_GetNext(o))); V_CHECK(rbusObject_GetNext(o) == b && RC(b) == 1, "the sibling moves up");
  rbusObject_SetNext(o, NULL); V_CHECK(rbusObject_GetNext(o) == NULL, "replaced by nothing");
  rbusObject_Release(o);
#endif
  V_REACH("end");
  V_END;
}
