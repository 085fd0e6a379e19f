//@ desc: a filter encoded and decoded is the same filter: same kind, operator, value and operands, also where an operand is absent
//@ functions: rbusFilter_Encode rbusFilter_Decode rbusFilter_InitLogic rbusFilter_InitRelation
//@ sources: src/rbus/rbus_value.c src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ unwind: 9
//@ unwindset: memcpy.0:260,memset.0:260
//@ flags: --object-bits 13 --memory-leak-check
//@ variant: relation -DS=0
//@ variant: logic -DS=1
//@ variant: not -DS=2
//@ variant: absent -DS=3
//@ variant: nested -DS=4 kind=bounded bound=trees,of,depth,3
#include "vf.h"
#include "rbus_filter.c"
#ifdef V_NATIVE
#include "rbus_buffer.h"
#endif
static int made;
static rbusFilter_t rel(void)
{ rbusFilter_t f; rbusValue_t v = rbusValue_InitInt32(vf_i32()); rbusFilter_InitRelation(&f, vf_u32(), v); rbusValue_Release(v); made++; return f; }
static rbusFilter_t logic(rbusFilter_t l, rbusFilter_t r)
{ rbusFilter_t f; rbusFilter_InitLogic(&f, vf_u32(), l, r); rbusFilter_Release(l); rbusFilter_Release(r); made++; return f; }
static void same(rbusFilter_t a, rbusFilter_t b)
{
  V_CHECK((a == NULL) == (b == NULL), "an operand is there exactly if it was");
  if(!a || !b) return;
  V_CHECK(a->type == b->type, "same kind of expression");
  if(a->type == RBUS_FILTER_EXPRESSION_RELATION) {
    V_CHECK(a->e.relation.op == b->e.relation.op, "same comparison");
    V_CHECK(rbusValue_GetType(b->e.relation.value) == RBUS_INT32 && rbusValue_GetInt32(a->e.relation.value) == rbusValue_GetInt32(b->e.relation.value), "same value");
    V_CHECK(b->retainable.refCount == 1, "owned once"); }
  else {
    V_CHECK(a->e.logic.op == b->e.logic.op, "same operator");
    same(a->e.logic.left, b->e.logic.left); same(a->e.logic.right, b->e.logic.right); }
}
V_HARNESS
{
  rbusBuffer_t b; rbusBuffer_Create(&b);
  rbusFilter_t f, g = NULL;
#if S == 0
  f = rel();
#elif S == 1
  f = logic(rel(), rel());
#elif S == 2
  rbusFilter_t l = rel(); rbusFilter_InitLogic(&f, RBUS_FILTER_OPERATOR_NOT, l, NULL); rbusFilter_Release(l);
#elif S == 3
  f = logic(NULL, vf_bool() ? NULL : NULL);
#else
  f = logic(logic(rel(), NULL), rel());
#endif
  rbusFilter_t n = rel();
  rbusFilter_Encode(f, b); rbusFilter_Encode(n, b);
  V_CHECK(rbusFilter_Decode(&g, b) >= 0, "what was encoded can be decoded");
  same(f, g); rbusFilter_Release(g);
  V_CHECK(rbusFilter_Decode(&g, b) >= 0, "exactly the bytes of the filter were consumed");
  same(n, g); rbusFilter_Release(g);
  V_CHECK(rbusFilter_Decode(&g, b) < 0, "nothing is left");
  rbusFilter_Release(f); rbusFilter_Release(n); rbusBuffer_Destroy(b); /* and everything is destroyed with its last owner */
  V_REACH("end");
  V_END;
}
