//@ desc: rbusBuffer_Read returns the next len bytes exactly when that many were written and not yet read, else fails leaving position alone; it never reads past the written bytes -- for every size, position and length
//@ functions: rbusBuffer_Read
//@ enforce: rbusBuffer_Read
//@ nsources: src/rtmessage/rtMemory.c
//@ fallback: unwind=2
//@ timeout: 400
//@ cost: 90
#include "vf.h"
#include <rbus.h>
#include <rbus_buffer.h>
#define MAXB (1<<24)
#define WF(b) ((b)->lenAlloc>=64 && (b)->lenAlloc<=MAXB && (b)->posWrite>=0 && (b)->posWrite<=(b)->lenAlloc && (b)->posRead>=0 && (b)->posRead<=(b)->posWrite)
int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
V_REQUIRES(buff != 0 && WF(buff) && data != 0 && (len <= 0 || __CPROVER_w_ok(data, len)))
V_ASSIGNS(buff->posRead, __CPROVER_object_whole(data))
V_ENSURES(__CPROVER_return_value == 0 || __CPROVER_return_value == -1)
V_ENSURES((__CPROVER_return_value == 0) == (len >= 0 && len <= buff->posWrite - __CPROVER_old(buff->posRead)))
V_ENSURES(buff->posRead == __CPROVER_old(buff->posRead) + (__CPROVER_return_value == 0 ? len : 0));
#include "rbus_buffer.c"
V_HARNESS
{
  rbusBuffer_t b = malloc(sizeof(*b));
  b->lenAlloc = vf_i32(); b->posWrite = vf_i32(); b->posRead = vf_i32();
  int len = vf_i32(), k = vf_i32(); unsigned char x = vf_u8();
#ifdef V_BOUNDED
  V_ASSUME(b->lenAlloc <= 256 && len <= 160);
#endif
  V_ASSUME(WF(b)); V_ASSUME(len <= 65535);
  b->data = b->lenAlloc == 64 ? b->block1 : malloc(b->posWrite ? b->posWrite : 1);   /* only what was written may be touched */
  unsigned char* d = malloc(len > 0 ? len : 1);
  int pr = b->posRead, pw = b->posWrite;
  if(k >= 0 && k < len && pr + k < pw) b->data[pr + k] = x;
  V_REACH("before");
  int rc = rbusBuffer_Read(b, d, len);
  V_CHECK((rc == 0) == (len >= 0 && len <= pw - pr), "succeeds exactly when enough bytes were written");
  V_CHECK(b->posRead == pr + (rc == 0 ? len : 0), "read position advances exactly by what was read");
  if(rc == 0) { if(k >= 0 && k < len) V_CHECK(d[k] == x, "every byte is the one written"); V_REACH("success"); }
  else V_REACH("failure");
  V_END;
}
