//@ desc: a vector is the sequence of the items pushed: size, order, lookup by item, by position and by comparison; removal takes out exactly the first match, destroys it exactly once and keeps the order of the rest
//@ functions: rtVector_Create rtVector_Destroy rtVector_PushBack rtVector_RemoveItem rtVector_RemoveItemByCompare rtVector_At rtVector_Size rtVector_HasItem rtVector_Find
//@ sources: src/rtmessage/rtVector.c src/rtmessage/rtMemory.c vlib/vf_mem.c
//@ unwind: 66
//@ flags: --memory-leak-check
//@ kind: bounded
//@ bound: vectors of 0, 1, 2, 3, 14, 15, 16, 17 and 33 items (around every growth of the storage), all different or repeating; the first, second, a middle, the last and a missing item removed in each way
//@ variant: n0 -DN=0
//@ variant: n1 -DN=1
//@ variant: n2 -DN=2
//@ variant: n3 -DN=3
//@ variant: n14 -DN=14
//@ variant: n15 -DN=15
//@ variant: n16 -DN=16
//@ variant: n17 -DN=17
//@ variant: n33 -DN=33
#include "vf.h"
#include "rtVector.h"
static uint64_t m[N + 2]; static unsigned n, destroyed; static uint64_t last;
static void destroy(void* p) { destroyed++; last = (uint64_t)p; }
static int same(void const* a, void const* b) { return (uint64_t)a == (uint64_t)b ? 0 : (uint64_t)a < (uint64_t)b ? -1 : 1; }
static void agree(rtVector v)
{
  V_CHECK(rtVector_Size(v) == n, "the size is the number of items");
  bool ok = true; for(unsigned i = 0; i < n; i++) ok = ok && (uint64_t)rtVector_At(v, i) == m[i];
  V_CHECK(ok, "every item stands where it was put");
  V_CHECK(rtVector_At(v, n) == NULL && rtVector_At(v, (size_t)-1) == NULL, "beyond the end there is nothing");
}
static void run(unsigned rep, unsigned pick, int how)
{
  rtVector v = NULL; n = 0;
  V_CHECK(rtVector_Create(&v) == RT_OK && v, "made"); agree(v);
  V_CHECK(rtVector_Find(v, (void*)7, same) == NULL && !rtVector_HasItem(v, (void*)7, same), "an empty vector has no items");
  V_CHECK(rtVector_RemoveItem(v, (void*)7, destroy) != RT_OK && rtVector_RemoveItemByCompare(v, (void*)7, same, destroy) != RT_OK, "nothing can be removed from it");
  for(unsigned i = 0; i < N; i++)
  { uint64_t x = 0x1000 + i % rep; m[n] = x; n++; V_CHECK(rtVector_PushBack(v, (void*)x) == RT_OK, "pushed"); }
  agree(v);
  uint64_t t = pick < N ? m[pick] : 0x77; unsigned at = N;
  for(unsigned i = N; i-- > 0; ) if(m[i] == t) at = i;
  V_CHECK((uint64_t)rtVector_Find(v, (void*)t, same) == (at < n ? t : 0) && (uint64_t)rtVector_Find(v, (void*)t, NULL) == (at < n ? t : 0) && rtVector_HasItem(v, (void*)t, same) == (at < n), "lookup finds exactly the items in it");
  destroyed = 0;
  rtError e = how == 0 ? rtVector_RemoveItem(v, (void*)t, destroy) : how == 1 ? rtVector_RemoveItemByCompare(v, (void*)t, same, destroy) : how == 2 ? rtVector_RemoveItem(v, (void*)t, NULL) : rtVector_RemoveItemByCompare(v, (void*)t, same, NULL);
  V_CHECK((e == RT_OK) == (at < N), "removal succeeds exactly for an item it has");
  V_CHECK(destroyed == (at < N && how < 2) && (!destroyed || last == t), "the removed item is destroyed, once, and no other");
  if(at < N) { for(unsigned i = 0; i < N; i++) if(i >= at) m[i] = m[i + 1]; n--; }
  agree(v);
  uint64_t x = 0x2000 + vf_u8(); V_CHECK(rtVector_PushBack(v, (void*)x) == RT_OK, "pushed after a removal");
  m[n] = x; n++; agree(v);
  destroyed = 0; V_CHECK(rtVector_Destroy(v, destroy) == RT_OK && destroyed == n, "destroying it destroys every item it has, once");
}
V_HARNESS
{
  static const unsigned picks[] = { 0, 1, N / 2, N ? N - 1 : 0, N };
  for(int how = 0; how < (N < 14 ? 4 : 2); how++) for(unsigned p = 0; p < 5; p++) { run(64, picks[p], how); }
  run(5, N / 2, 0); run(5, N / 2, 1); run(1, 0, 0); run(1, 0, 1); run(5, N ? N - 1 : 0, 1); run(5, N ? N - 1 : 0, 0);
  V_CHECK(rtVector_At(NULL, 0) == NULL && rtVector_Size(NULL) == 0 && rtVector_PushBack(NULL, NULL) != RT_OK && rtVector_Destroy(NULL, destroy) != RT_OK, "no vector is refused");
  V_REACH("end");
  V_END;
}
