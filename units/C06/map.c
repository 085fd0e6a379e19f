//@ desc: a hash map is the map its operations describe: each key has the value last set, removed keys have none, others are untouched, through collisions, growth and shrinking; keys and values that leave are destroyed exactly once
//@ functions: rtHashMap_Create rtHashMap_CreateEx rtHashMap_Destroy rtHashMap_Set rtHashMap_Get rtHashMap_Contains rtHashMap_GetSize rtHashMap_Remove rtHashMap_Resize rtHashMap_GetBucket rtHashMap_GetNode rtHashMap_Node_Free rtHashMap_Bucket_Free rtHashMap_Bucket_Free_None rtHashMap_Compare_Node
//@ sources: src/rtmessage/rtHashMap.c src/rtmessage/rtVector.c src/rtmessage/rtMemory.c vlib/vf_mem.c
//@ unwind: 20
//@ unwindset: vf_harness.0:64,vf_harness.1:64,vf_harness.2:64,agree.0:30,rtHashMap_Resize.0:70,rtHashMap_Resize.1:70,rtVector_PushBack.0:70,rtVector_Destroy.0:70,rtHashMap_Destroy.0:70
//@ flags: --memory-leak-check --object-bits 10
//@ kind: bounded
//@ bound: the listed key sequences (distinct, colliding, growing past 12 entries and shrinking again), values arbitrary
//@ variant: overwrite -DOPS="aabab" -DRM="ab" -DHASH=0
//@ variant: collide -DOPS="aqbra" -DRM="qarb" -DHASH=1
//@ variant: one_bucket -DOPS="abcdc" -DRM="bdac" -DHASH=2
//@ variant: grow -DOPS="abcdefghijklmn" -DRM="anb" -DHASH=0
//@ variant: shrink -DOPS="abcdefghijklmn" -DRM="nmlkj" -DHASH=1
#include "vf.h"
#include "rtHashMap.h"
#include "rtVector.h"
/* keys are numbers; the hash is a parameter of the map */
struct _rtHashMap { rtVector buckets; size_t size; float load_factor; };
static char const ops[] = OPS, rm[] = RM;
static uint64_t val[32]; static bool has[32]; static unsigned n, kd, vd; static uint64_t lastk, lastv; static unsigned kc, vc;
static uint32_t hash(rtHashMap m, void const* k) { uint32_t h = (uint32_t)(uint64_t)k; uint32_t nb = (uint32_t)rtVector_Size(m->buckets); return HASH == 0 ? h % nb : HASH == 1 ? (h & 15) % nb : 3 % nb; }
static int cmp(void const* a, void const* b) { return (uint64_t)a == (uint64_t)b ? 0 : 1; }
static void const* ck(void const* k) { kc++; return k; }
static void const* cv(void const* k) { vc++; return k; }
static void dk(void* k) { kd++; lastk = (uint64_t)k; }
static void dv(void* k) { vd++; lastv = (uint64_t)k; }
static void agree(rtHashMap m)
{
  V_CHECK(rtHashMap_GetSize(m) == n, "the size is the number of keys");
  for(unsigned k = 1; k <= 20; k++)
  { uint64_t g = (uint64_t)rtHashMap_Get(m, (void*)(uint64_t)k);
    V_CHECK(g == (has[k] ? val[k] : 0) && rtHashMap_Contains(m, (void*)(uint64_t)k) == has[k], "every key has exactly its value"); }
}
V_HARNESS
{
  rtHashMap m = NULL; rtHashMap_CreateEx(&m, 0, hash, cmp, ck, dk, cv, dv); V_CHECK(m != NULL, "made");
  agree(m);
  for(unsigned o = 0; ops[o]; o++)
  {
    unsigned k = ops[o] - 'a' + 1; uint64_t x = 0x1000 + vf_u8(), before = val[k];
    kd = vd = kc = vc = 0;
    rtHashMap_Set(m, (void*)(uint64_t)k, (void*)x);
    V_CHECK(kc == 1 && vc == 1, "key and value are copied once");
    V_CHECK(kd == has[k] && vd == has[k] && (!has[k] || (lastk == k && lastv == before)), "an overwritten entry is destroyed, once, and no other");
    if(!has[k]) n++;
    has[k] = true; val[k] = x;
  }
  agree(m);
  for(unsigned o = 0; rm[o]; o++)
  {
    unsigned k = rm[o] - 'a' + 1; kd = vd = 0;
    V_CHECK(rtHashMap_Remove(m, (void*)(uint64_t)k) == 1 && kd == 1 && vd == 1 && lastk == k && lastv == val[k], "a removed entry is destroyed, once, and no other");
    has[k] = false; n--; kd = vd = 0;
    V_CHECK(rtHashMap_Remove(m, (void*)(uint64_t)k) == 0 && kd == 0 && vd == 0, "and cannot be removed again");
  }
  agree(m);
  kd = vd = 0; rtHashMap_Destroy(m); V_CHECK(kd == n && vd == n, "destroying the map destroys every entry it has, once");
  V_REACH("end");
  V_END;
}
