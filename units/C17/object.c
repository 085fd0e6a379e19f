//@ desc: after every sequence of named sets an object holds each name once, in first-set order, with the value last set for it; the other names keep theirs; a name never set gives nothing; names are compared whole
//@ functions: rbusObject_SetProperty rbusObject_SetPropertyValue rbusObject_SetValue rbusObject_GetProperty rbusObject_GetValue rbusObject_GetPropertyValue rbusObject_GetProperties rbusObject_SetProperties rbusProperty_Init rbusProperty_Append rbusProperty_SetNext rbusProperty_GetNext rbusProperty_GetName rbusProperty_GetValue rbusProperty_Count
//@ sources: src/rbus/rbus_value.c src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ kind: bounded
//@ bound: every sequence of 4 sets over 4 names (up to renaming), values arbitrary
//@ unwind: 8
//@ unwindset: memcpy.0:80,memset.0:80
//@ flags: --object-bits 13
//@ cost: 30
//@ variant: property -DU=1
//@ variant: value -DU=2
//@ variant: typed -DU=3
//@ variant: mixed -DU=4
#include "vf.h"
#include <rbus.h>
static char const* const NAME[] = { "ab", "a", "abc", "b" };
#define LEN 4
static void op(rbusObject_t o, int kind, char const* name, int32_t x)
{
  rbusValue_t v = NULL; rbusProperty_t p = NULL;
  if(kind == 3) { rbusObject_SetPropertyInt32(o, name, x); return; }
  rbusValue_Init(&v); rbusValue_SetInt32(v, x);
  if(kind == 1) { rbusProperty_Init(&p, name, v); rbusObject_SetProperty(o, p); rbusProperty_Release(p); }
  else rbusObject_SetValue(o, name, v);
  rbusValue_Release(v);
}
static void check(rbusObject_t o, int const* order, int n, int32_t const* want)
{
  rbusProperty_t p = rbusObject_GetProperties(o);
  V_CHECK(rbusProperty_Count(p) == (uint32_t)n, "each name is held once");
  for(int i = 0; i < n; i++)
  {
    V_CHECK(p != NULL && strcmp(rbusProperty_GetName(p), NAME[order[i]]) == 0, "names stay in the order they were first set");
    V_CHECK(rbusValue_GetType(rbusProperty_GetValue(p)) == RBUS_INT32 && rbusProperty_GetInt32(p) == want[order[i]], "each name has the value last set for it");
    V_CHECK(rbusObject_GetProperty(o, NAME[order[i]]) == p && rbusObject_GetValue(o, NAME[order[i]]) == rbusProperty_GetValue(p), "looking a name up finds its property");
    int32_t y = 0; V_CHECK(rbusObject_GetPropertyInt32(o, NAME[order[i]], &y) == RBUS_VALUE_ERROR_SUCCESS && y == want[order[i]], "and its value");
    p = rbusProperty_GetNext(p);
  }
  V_CHECK(p == NULL, "the list ends there");
  for(int k = 0; k < 4; k++) { bool in = false; for(int i = 0; i < n; i++) if(order[i] == k) in = true;
    if(!in) { int32_t y = 5; V_CHECK(rbusObject_GetProperty(o, NAME[k]) == NULL && rbusObject_GetValue(o, NAME[k]) == NULL && rbusObject_GetPropertyInt32(o, NAME[k], &y) == RBUS_VALUE_ERROR_NOT_FOUND && y == 5, "a name never set gives nothing"); } }
}
static void history(int const* seq)
{
  rbusObject_t o = NULL; int order[LEN], n = 0; int32_t want[4] = {0};
  rbusObject_Init(&o, "o");
  for(int i = 0; i < LEN; i++)
  {
    int k = seq[i], j = 0; int32_t x = vf_i32();
    op(o, U == 4 ? 1 + i % 3 : U, NAME[k], x); want[k] = x;
    while(j < n && order[j] != k) j++;
    if(j == n) order[n++] = k;
    check(o, order, n, want);
  }
  rbusObject_Release(o);
}
V_HARNESS
{
  int s[LEN]; s[0] = 0;
  for(s[1] = 0; s[1] <= 1; s[1]++) for(s[2] = 0; s[2] <= s[1] + 1; s[2]++)
  { int m = s[1] > s[2] ? s[1] : s[2]; for(s[3] = 0; s[3] <= m + 1; s[3]++) history(s); }
  V_REACH("end");
  V_END;
}
