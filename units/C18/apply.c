//@ desc: a relation matches exactly when the stated comparison holds; and, or, not combine the operands' meanings exactly as boolean operators (structural induction: inner applications are used by their contract)
//@ functions: rbusFilter_Apply rbusFilter_RelationApply rbusFilter_LogicApply
//@ sources: src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c
//@ nsources: @all
//@ enforce-rec: rbusFilter_Apply
//@ fallback: unwind=4
//@ unwind: 4
//@ trusted: rbusValue_Compare answers the sign of the order of the two values (C16)
#include "vf.h"
#include "rbus_filter.c"
/* the operands: arbitrary filters that mean lv and rv for the value at hand */
static struct _rbusFilter root, lf, rf; static bool lv, rv; static rbusValue_t subject, rootv; static int order;
static bool meaning(rbusFilter_t f)
{
  if(!f) return false;
  if(f == &lf) return lv;
  if(f == &rf) return rv;
  if(f->type == RBUS_FILTER_EXPRESSION_RELATION) switch(f->e.relation.op) {
    case RBUS_FILTER_OPERATOR_GREATER_THAN: return order > 0;
    case RBUS_FILTER_OPERATOR_GREATER_THAN_OR_EQUAL: return order > 0 || order == 0;
    case RBUS_FILTER_OPERATOR_LESS_THAN: return order < 0;
    case RBUS_FILTER_OPERATOR_LESS_THAN_OR_EQUAL: return order < 0 || order == 0;
    case RBUS_FILTER_OPERATOR_EQUAL: return order == 0;
    case RBUS_FILTER_OPERATOR_NOT_EQUAL: return order > 0 || order < 0; 
    default: return false; }
  if(f->type == RBUS_FILTER_EXPRESSION_LOGIC) {
    bool a = f->e.logic.left ? (f->e.logic.left == &lf ? lv : rv) : false, b = f->e.logic.right ? (f->e.logic.right == &lf ? lv : rv) : false;
    switch(f->e.logic.op) {
    case RBUS_FILTER_OPERATOR_AND: return a & b;
    case RBUS_FILTER_OPERATOR_OR: return a | b;
    case RBUS_FILTER_OPERATOR_NOT: return a ^ 1;
    default: return false; } }
  return false;
}
bool rbusFilter_Apply(rbusFilter_t filter, rbusValue_t value)
V_REQUIRES(filter == NULL || filter == &root || filter == &lf || filter == &rf)
V_REQUIRES(value == subject)
V_ENSURES(__CPROVER_return_value == meaning(filter))
V_ASSIGNS();
#ifndef V_NATIVE
static struct _rtRetainable { int x; } sv, rootval, other;
int rbusValue_Compare(rbusValue_t a, rbusValue_t b)
{
  V_CHECK(a == subject || b == subject, "the filter is applied to the value at hand");
  if(a == subject && b == rootv) return order;
  if(a == rootv && b == subject) return order == (-2147483647 - 1) ? 2147483647 : -order;
  return 0;
}
#endif
static rbusFilter_t operand(void) { uint32_t k = vf_range(0, 2); return k == 0 ? NULL : k == 1 ? &lf : &rf; }
V_HARNESS
{
  order = vf_i32(); lv = vf_bool(); rv = vf_bool();
#ifdef V_NATIVE
  subject = rbusValue_InitInt32(0); rootv = rbusValue_InitInt32(order > 0 ? -1 : order < 0);
#else
  subject = (rbusValue_t)&sv; rootv = (rbusValue_t)&rootval;
#endif
#if defined(V_NATIVE) || defined(V_BOUNDED)
  lf.type = rf.type = RBUS_FILTER_EXPRESSION_RELATION;
  lf.e.relation.value = rf.e.relation.value = subject; lf.e.relation.op = lv ? RBUS_FILTER_OPERATOR_EQUAL : RBUS_FILTER_OPERATOR_NOT_EQUAL;
  rf.e.relation.op = rv ? RBUS_FILTER_OPERATOR_EQUAL : RBUS_FILTER_OPERATOR_NOT_EQUAL;
#endif
  root.retainable.refCount = 1; root.type = vf_u32();
  uint32_t op = vf_u32();
  if(root.type == RBUS_FILTER_EXPRESSION_RELATION) { root.e.relation.op = op; root.e.relation.value = rootv; }
  else { root.e.logic.op = op; root.e.logic.left = operand(); root.e.logic.right = operand(); }
  rbusFilter_t f = vf_bool() ? &root : NULL;
  bool r = rbusFilter_Apply(f, subject);
  V_CHECK(r == meaning(f), "the filter matches exactly the values it says");
  V_REACH("end");
  V_END;
}
