//@ desc: rbusBuffer_Write/Reserve append exactly the given bytes, keep every byte written before, keep the representation invariant and touch nothing but the buffer -- for every allocation size, position and length
//@ functions: rbusBuffer_Write rbusBuffer_Reserve
//@ enforce: rbusBuffer_Write
//@ nsources: src/rtmessage/rtMemory.c
//@ fallback: unwind=2
//@ flags: --sat-solver cadical
//@ timeout: 400
//@ cost: 100
//@ trusted: rt_malloc_at/rt_realloc_at (rtMemory.c: wrappers of malloc/realloc that abort on failure) replaced by malloc/realloc that succeed
#include "vf.h"
#include <rbus.h>
#include <rbus_buffer.h>
#define MAXB (1<<24)
#define WF(b) ((b)->lenAlloc>=64 && (b)->lenAlloc<=MAXB && (b)->posWrite>=0 && (b)->posWrite<=(b)->lenAlloc && (b)->posRead>=0 && (b)->posRead<=(b)->posWrite)
void rbusBuffer_Write(rbusBuffer_t buff, void const* data, int len)
V_REQUIRES(buff != 0 && WF(buff) && data != 0 && len >= 0 && len <= 65535 && __CPROVER_r_ok(data, len))
V_ASSIGNS(buff->posWrite, buff->lenAlloc, buff->data, __CPROVER_object_whole(buff->data), __CPROVER_object_whole(buff->block1))
V_FREES(buff->data)
V_ENSURES(buff->posWrite == __CPROVER_old(buff->posWrite) + len && buff->posWrite <= buff->lenAlloc)
V_ENSURES(buff->posRead == __CPROVER_old(buff->posRead))
V_ENSURES(__CPROVER_r_ok(buff->data, buff->lenAlloc));
#include "rbus_buffer.c"
#ifndef V_NATIVE
void* rt_malloc_at(size_t size, char const* file, int line, int do_abort) { return malloc(size); }
void* rt_realloc_at(void* q, size_t size, char const* file, int line, int do_abort) { return realloc(q, size); }
#endif
V_HARNESS
{
  rbusBuffer_t b = malloc(sizeof(*b));
  b->lenAlloc = vf_i32(); b->posWrite = vf_i32(); b->posRead = vf_i32();
  int len = vf_i32(), k = vf_i32(), j = vf_i32(); unsigned char x = vf_u8(), y = vf_u8();
#ifdef V_BOUNDED
  V_ASSUME(b->lenAlloc <= 256 && len <= 160);
#endif
  V_ASSUME(WF(b)); V_ASSUME(len >= 0 && len <= 65535);
  b->data = b->lenAlloc == 64 ? b->block1 : malloc(b->lenAlloc);
  unsigned char* d = malloc(len ? len : 1);
  int pw = b->posWrite;
  /* k, j: arbitrary witness positions (the contents are arbitrary anyway) */
#ifdef V_NATIVE
  if(k >= 0 && k < len) d[k] = x;
  if(j >= 0 && j < pw) b->data[j] = y;
#else
  if(k >= 0 && k < len) V_ASSUME(x == d[k]);
  if(j >= 0 && j < pw) V_ASSUME(y == b->data[j]);
#endif
  
  rbusBuffer_Write(b, d, len);
  V_CHECK(b->posWrite == pw + len && b->posWrite <= b->lenAlloc, "write position advanced by len, within the allocation");
  if(k >= 0 && k < len) V_CHECK(b->data[pw + k] == x, "every byte given is appended");
  if(j >= 0 && j < pw) V_CHECK(b->data[j] == y, "every byte written before is kept");
  V_REACH("end");
  V_END;
}
