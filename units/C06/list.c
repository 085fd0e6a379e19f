//@ desc: a list is the sequence its operations describe, forward and backward; each operation changes only what it names; a removal with a destructor destroys that element exactly once and no other
//@ functions: rtList_Create rtList_Destroy rtList_PushFront rtList_PushBack rtList_InsertBefore rtList_InsertAfter rtList_RemoveItem rtList_RemoveItemWithData rtList_RemoveItemByCompare rtList_RemoveAllItems rtList_HasItem rtList_Find rtList_GetSize rtList_GetFront rtList_GetBack rtListItem_GetData rtListItem_SetData rtListItem_GetNext rtListItem_GetPrev rtList_GetFreeItem rtList_SetFreeItem
//@ sources: src/rtmessage/rtList.c src/rtmessage/rtMemory.c vlib/vf_mem.c
//@ unwind: 9
//@ unwindset: vf_harness.0:32,memset.0:40
//@ flags: --memory-leak-check
//@ kind: bounded
//@ bound: operation sequences listed as variants (B/F push back/front, b<i>/a<i> insert before/after position i, r<i> remove position i with destructor, x<i> without, d remove by data, c by comparison, A remove all), data arbitrary
//@ variant: push -DOPS="BFBF"
//@ variant: insert1 -DOPS="Bb0a1a0"
//@ variant: insert2 -DOPS="Fa0b0b2"
//@ variant: first -DOPS="BBBr0r0r0"
//@ variant: last -DOPS="BBBr2r1r0"
//@ variant: middle -DOPS="BBBr1r1r0B"
//@ variant: reuse -DOPS="BBr0BFr1r0FB"
//@ variant: keep -DOPS="BBx0x0BFb1"
//@ variant: data -DOPS="BBBdBd"
//@ variant: compare -DOPS="BBBcFc"
//@ variant: all -DOPS="BBBABAFF"
//@ variant: all_reuse -DOPS="FFr0AFBa0r1"
//@ variant: mixed1 -DOPS="BFa0r1b1r2B"
//@ variant: mixed2 -DOPS="Fb0a0r2r0dB"
#include "vf.h"
#include "rtList.h"
#define S_(x) #x
#define S(x) S_(x)
static char ops[] = OPS "\0";
static uint64_t m[8]; static unsigned n, destroyed; static uint64_t gone, next_id = 1;
static void destroy(void* p) { destroyed++; gone = (uint64_t)p; }
static int same(void const* a, void const* b) { return (uint64_t)a == (uint64_t)b ? 0 : 1; }
static void put(unsigned at, uint64_t x) { for(unsigned i = 7; i > at; i--) m[i] = m[i - 1]; m[at] = x; n++; }
static void take(unsigned at) { for(unsigned i = 0; i < 7; i++) if(i >= at) m[i] = m[i + 1]; n--; }
static rtListItem nth(rtList l, unsigned k) { rtListItem it; rtList_GetFront(l, &it); for(; k > 0; k--) rtListItem_GetNext(it, &it); return it; }
static void agree(rtList l)
{
  size_t sz = 99; rtListItem it; void* d;
  V_CHECK(rtList_GetSize(l, &sz) == RT_OK && sz == n, "the size is the number of elements");
  rtList_GetFront(l, &it);
  for(unsigned i = 0; i < n; i++) { V_CHECK(it != NULL, "forward: an element for every position"); rtListItem_GetData(it, &d); V_CHECK((uint64_t)d == m[i], "forward: in order"); rtListItem_GetNext(it, &it); }
  V_CHECK(it == NULL, "forward: nothing more");
  rtList_GetBack(l, &it);
  for(unsigned i = n; i > 0; i--) { V_CHECK(it != NULL, "backward: an element for every position"); rtListItem_GetData(it, &d); V_CHECK((uint64_t)d == m[i - 1], "backward: in order"); rtListItem_GetPrev(it, &it); }
  V_CHECK(it == NULL, "backward: nothing more");
}
V_HARNESS
{
  rtList l = NULL; rtListItem it; 
  V_CHECK(rtList_Create(&l) == RT_OK && l, "made"); agree(l);
  for(unsigned o = 0; ops[o]; o++)
  {
    char c = ops[o]; unsigned i = 0; uint64_t x = 0x1000 + vf_u8(); void* d; rtError e = RT_OK; bool kill = false;
    if(c == 'a' || c == 'b' || c == 'r' || c == 'x') { o++; i = ops[o] - '0'; }
    destroyed = 0;
    if(c == 'B') { e = rtList_PushBack(l, (void*)x, &it); put(n, x); }
    if(c == 'F') { e = rtList_PushFront(l, (void*)x, &it); put(0, x); }
    if(c == 'b') { e = rtList_InsertBefore(l, (void*)x, nth(l, i), &it); put(i, x); }
    if(c == 'a') { e = rtList_InsertAfter(l, (void*)x, nth(l, i), &it); put(i + 1, x); }
    if(c == 'B' || c == 'F' || c == 'a' || c == 'b') { rtListItem_GetData(it, &d); V_CHECK((uint64_t)d == x, "the new element is handed back"); }
    if(c == 'r' || c == 'x') { e = rtList_RemoveItem(l, nth(l, i), c == 'r' ? destroy : NULL); V_CHECK(destroyed == (c == 'r') && (c == 'x' || gone == m[i]), "the removed element is destroyed, once"); take(i); }
    if(c == 'd' || c == 'c')
    {
      unsigned at = 8; for(unsigned j = 8; j-- > 0; ) if(j < n && m[j] == x) at = j;
      V_CHECK((rtList_Find(l, (void*)x, same) != NULL) == (at < 8) && rtList_HasItem(l, (void*)x, same) == (at < 8), "lookup finds exactly what is in the list");
      rtError r = c == 'd' ? rtList_RemoveItemWithData(l, (void*)x, destroy) : rtList_RemoveItemByCompare(l, (void*)x, same, destroy);
      V_CHECK((r == RT_OK) == (at < 8), "removal succeeds exactly for data in the list");
      V_CHECK(destroyed == (at < 8) && (!destroyed || gone == x), "and destroys that element, once");
      if(at < 8) take(at);
    }
    if(c == 'A') { unsigned k = n; e = rtList_RemoveAllItems(l, destroy); V_CHECK(destroyed == k, "every element is destroyed once"); n = 0; }
    V_CHECK(e == RT_OK, "the operation succeeds");
    agree(l);
  }
  if(n) { rtListItem_SetData(nth(l, 0), (void*)77); m[0] = 77; agree(l); }
  rtListItem none; V_CHECK(rtList_PushBack(NULL, l, &none) != RT_OK && none == NULL && rtList_InsertAfter(l, l, NULL, &none) != RT_OK && none == NULL && rtList_RemoveItem(l, NULL, destroy) != RT_OK, "bad arguments are refused"); agree(l);
  bool kept = false; for(unsigned o = 0; ops[o]; o++) if(ops[o] == 'x') kept = true;
  destroyed = 0; V_CHECK(rtList_Destroy(l, destroy) == RT_OK && (kept ? destroyed >= n : destroyed == n), "destroying the list destroys every element it has, once");
  V_REACH("end");
  V_END;
}
