//@ desc: arbitrary bytes offered as an encoded filter are decoded to a complete filter or refused without producing one, reading only the given bytes and leaking nothing
//@ functions: rbusFilter_Decode rbusFilter_Release
//@ sources: src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: @all
//@ kind: bounded
//@ unwind: 9
//@ unwindset: memcpy.0:260,memset.0:260,vf_harness.0:66,vf_harness.1:66
//@ flags: --object-bits 12 --memory-leak-check
//@ trusted: rbusValue_Decode yields a value or refuses (C14)
//@ variant: n7 -DN=7 bound=7,bytes
//@ variant: n12 -DN=12 bound=12,bytes
//@ variant: cut_relation -DS=0 bound=every,proper,prefix,of,an,encoded,relation
//@ variant: cut_not -DS=2 bound=every,proper,prefix,of,an,encoded,negation
//@ variant: cut_logic20 -DS=1 -DLO=20 -DHI=34 bound=proper,prefixes,of,an,encoded,logic,expression
//@ variant: cut_logic34 -DS=1 -DLO=34 -DHI=48 bound=proper,prefixes,of,an,encoded,logic,expression
//@ variant: cut_logic48 -DS=1 -DLO=48 -DHI=64 bound=proper,prefixes,of,an,encoded,logic,expression
//@ variant: kind -DS=3 bound=five,unknown,kinds,of,an,operand
#include "vf.h"
#include "rbus_filter.c"
#ifdef V_NATIVE
#include "rbus_buffer.h"
#else
struct vv { int refs; };
/* a value of four bytes: its header and its bytes are taken from the buffer, or it is refused */
int rbusValue_Decode(rbusValue_t* v, rbusBuffer_t const b)
{ uint16_t t, l; uint32_t x; if(rbusBuffer_ReadUInt16(b, &t) < 0 || rbusBuffer_ReadUInt16(b, &l) < 0 || t != RBUS_UINT32 || l != 4 || rbusBuffer_ReadUInt32(b, &x) < 0) return -1;
  struct vv* n = malloc(sizeof *n); n->refs = 1; *v = (rbusValue_t)n; return 0; }
void rbusValue_Encode(rbusValue_t v, rbusBuffer_t b) { rbusBuffer_WriteUInt32TLV(b, 7); }
static rbusValue_t rbusValue_InitUInt32_(void) { struct vv* n = malloc(sizeof *n); n->refs = 1; return (rbusValue_t)n; }
#define rbusValue_InitUInt32(x) rbusValue_InitUInt32_()
void rbusValue_Release(rbusValue_t v) { if(--((struct vv*)v)->refs == 0) free(v); }
void rbusValue_Retain(rbusValue_t v) { ((struct vv*)v)->refs++; }
#endif
static void whole(rbusFilter_t f)
{
  if(!f) return;
  V_CHECK(f->type == RBUS_FILTER_EXPRESSION_RELATION || f->type == RBUS_FILTER_EXPRESSION_LOGIC, "the filter is an expression of a known kind");
  V_CHECK(f->retainable.refCount == 1, "the filter is owned once");
  if(f->type == RBUS_FILTER_EXPRESSION_LOGIC) { whole(f->e.logic.left); whole(f->e.logic.right); }
  else V_CHECK(f->e.relation.value != NULL, "a relation has a value");
}
V_UNUSED static rbusFilter_t rel(void)
{ rbusFilter_t f; rbusValue_t v = rbusValue_InitUInt32(7); rbusFilter_InitRelation(&f, vf_u32(), v); rbusValue_Release(v); return f; }
V_HARNESS
{
#ifdef S
  rbusBuffer_t b; rbusFilter_t f, l, r, g; static char mark;
  l = rel(); r = S == 2 ? NULL : rel();
  if(S == 0) { f = l; rbusFilter_Retain(f); } else rbusFilter_InitLogic(&f, S == 2 ? RBUS_FILTER_OPERATOR_NOT : RBUS_FILTER_OPERATOR_OR, l, r);
#if S == 3
  static uint32_t const kinds[] = { 2, 3, 77, 0x80000000u, 0xfffffffeu };
  for(int k = 0; k < 5; k++)
  {
    l->type = kinds[k]; rbusBuffer_Create(&b); rbusFilter_Encode(f, b); g = (rbusFilter_t)&mark;
    V_CHECK(rbusFilter_Decode(&g, b) < 0 && g == (rbusFilter_t)&mark, "an expression of an unknown kind is refused");
    rbusBuffer_Destroy(b);
  }
  l->type = RBUS_FILTER_EXPRESSION_RELATION;
#else
#ifndef LO
#define LO 0
#define HI 1000
#endif
  rbusBuffer_Create(&b); rbusFilter_Encode(f, b); int all = b->posWrite;
  for(int n = LO; n < all && n < HI; n++)
  {
    g = (rbusFilter_t)&mark; b->posWrite = n; b->posRead = 0;
    V_CHECK(rbusFilter_Decode(&g, b) < 0, "an incomplete filter is refused");
    V_CHECK(g == (rbusFilter_t)&mark, "nothing is produced when the bytes are refused");
  }
  rbusBuffer_Destroy(b);
#endif
  rbusFilter_Release(l); rbusFilter_Release(r); rbusFilter_Release(f);
#else
  rbusBuffer_t b; rbusBuffer_Create(&b);
  static char mark; rbusFilter_t f = (rbusFilter_t)&mark;
  for(int i = 0; i < N; i++) { uint8_t c = vf_u8(); b->data[i] = c; }
  b->posWrite = N;
  if(rbusFilter_Decode(&f, b) < 0) V_CHECK(f == (rbusFilter_t)&mark, "nothing is produced when the bytes are refused");
  else { V_CHECK(f != NULL && f != (rbusFilter_t)&mark, "a filter is produced"); whole(f); rbusFilter_Release(f); }
  V_CHECK(b->posRead >= 0 && b->posRead <= N, "only the given bytes are read");
  rbusBuffer_Destroy(b);
#endif
  V_REACH("end");
  V_END;
}
