//@ desc: a filter written to a bus message and read back accepts the same values: same kind, operator, value and meaningful operands; a message without a filter yields none
//@ functions: rbusFilter_AppendToMessage rbusFilter_InitFromMessage rbusValue_appendToMessage rbusValue_initFromMessage
//@ sources: src/rbus/rbus.c src/rbus/rbus_filter.c src/rbus/rbus_value.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 12
//@ unwindset: memcpy.0:70,strlen.0:60,strcmp.0:60
//@ flags: --object-bits 12
//@ trusted: bus messages by their contract (C11)
//@ variant: relation -DS=0
//@ variant: and -DS=1 -DOP=RBUS_FILTER_OPERATOR_AND
//@ variant: or -DS=1 -DOP=RBUS_FILTER_OPERATOR_OR
//@ variant: not -DS=2
//@ variant: nested -DS=3 kind=bounded bound=trees,of,depth,3
//@ variant: none -DS=4 kind=bounded bound=five,unknown,kinds
#include "vf.h"
#include <rbus.h>
#include "vf_msg.h"
void rbusFilter_AppendToMessage(rbusFilter_t filter, rbusMessage msg);
void rbusFilter_InitFromMessage(rbusFilter_t* filter, rbusMessage msg);
static rbusFilter_t rel(uint32_t op)
{ rbusFilter_t f; rbusValue_t v = rbusValue_InitInt32(vf_i32()); rbusFilter_InitRelation(&f, op, v); rbusValue_Release(v); return f; }
static rbusFilter_t logic(uint32_t op, rbusFilter_t l, rbusFilter_t r)
{ rbusFilter_t f; rbusFilter_InitLogic(&f, op, l, r); return f; }
static void same(rbusFilter_t a, rbusFilter_t b)
{
  V_CHECK(b != NULL, "the filter arrives");
  V_CHECK(rbusFilter_GetType(a) == rbusFilter_GetType(b), "same kind of expression");
  if(rbusFilter_GetType(a) == RBUS_FILTER_EXPRESSION_RELATION) {
    V_CHECK(rbusFilter_GetRelationOperator(a) == rbusFilter_GetRelationOperator(b), "same comparison");
    rbusValue_t x = rbusFilter_GetRelationValue(a), y = rbusFilter_GetRelationValue(b);
    V_CHECK(y && rbusValue_GetType(y) == RBUS_INT32 && rbusValue_GetInt32(x) == rbusValue_GetInt32(y), "same value"); }
  else {
    V_CHECK(rbusFilter_GetLogicOperator(a) == rbusFilter_GetLogicOperator(b), "same operator");
    same(rbusFilter_GetLogicLeft(a), rbusFilter_GetLogicLeft(b));
    if(rbusFilter_GetLogicOperator(a) != RBUS_FILTER_OPERATOR_NOT) same(rbusFilter_GetLogicRight(a), rbusFilter_GetLogicRight(b)); }
}
V_HARNESS
{
  rbusMessage m; rbusMessage_Init(&m); static char mark; rbusFilter_t f, g = (rbusFilter_t)&mark;
#if S == 4
  static int32_t const kinds[] = { -1, 2, 3, 77, 0x7fffffff }; (void)f;
  for(int k = 0; k < 6; k++) /* an unknown kind of expression, or nothing at all */
  {
    rbusMessage_Init(&m); g = (rbusFilter_t)&mark; if(k < 5) rbusMessage_SetInt32(m, kinds[k]);
#ifdef V_NATIVE
    { uint8_t const* d; uint32_t n; rbusMessage c; rbusMessage_ToBytes(m, (uint8_t**)&d, &n); rbusMessage_FromBytes(&c, d, n); m = c; }
#endif
    rbusFilter_InitFromMessage(&g, m);
    V_CHECK(g == NULL, "no filter is made up");
  }
#else
#if S == 0
  f = rel(vf_u32());
#elif S == 1
  f = logic(OP, rel(vf_u32()), rel(vf_u32()));
#elif S == 2
  f = logic(RBUS_FILTER_OPERATOR_NOT, rel(vf_u32()), NULL);
#else
  f = logic(RBUS_FILTER_OPERATOR_OR, logic(RBUS_FILTER_OPERATOR_NOT, rel(vf_u32()), NULL), logic(RBUS_FILTER_OPERATOR_AND, rel(vf_u32()), rel(vf_u32())));
#endif
  int32_t after = vf_i32(), got = 0;
  rbusFilter_AppendToMessage(f, m); rbusMessage_SetInt32(m, after);
#ifdef V_NATIVE
  { uint8_t const* d; uint32_t n; rbusMessage c; rbusMessage_ToBytes(m, (uint8_t**)&d, &n); rbusMessage_FromBytes(&c, d, n); m = c; }
#endif
  rbusFilter_InitFromMessage(&g, m);
  V_CHECK(g != (rbusFilter_t)&mark, "the filter arrives"); same(f, g);
  V_CHECK(rbusMessage_GetInt32(m, &got) == RT_OK && got == after, "exactly the filter's fields are consumed");
  rbusFilter_Release(g); rbusFilter_Release(f);
#endif
  V_REACH("end");
  V_END;
}
