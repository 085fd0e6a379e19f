//@ desc: encoding any byte string within the limit yields exactly the standard text, terminated, inside the allocated buffer
//@ functions: rtBase64_encode
//@ sources: src/rtmessage/rtMemory.c
//@ nsources: @all
//@ loops: encode.json
//@ variant: r0 -DR=0
//@ variant: r1 -DR=1
//@ variant: r2 -DR=2
//@ fallback: unwind=12 -DMAXN=10
//@ unwind: 6
//@ timeout: 800
//@ flags: --sat-solver cadical
#include "vf.h"
#include "rtBase64.c"
#ifndef MAXN
#define MAXN RBUS_BINARY_DATA_SIZE_LIMIT
#endif
static unsigned char const T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
unsigned char gin[MAXN + 1]; unsigned int gn, gg; /* the input, its length and an arbitrary group number */
unsigned char gs[4]; /* what the standard says about that group */
unsigned char gin_at(unsigned int i) { return i < gn ? gin[i] : 0; }
unsigned char spec(unsigned int k) /* the k-th character of the standard text */
{
  unsigned int g = k / 4, left = gn - 3 * g; uint32_t w = (uint32_t)gin_at(3 * g) << 16 | (uint32_t)gin_at(3 * g + 1) << 8 | gin_at(3 * g + 2);
  if(k % 4 == 2 && left < 2) return '=';
  if(k % 4 == 3 && left < 3) return '=';
  return T[(w >> (18 - 6 * (k % 4))) & 63];
}
V_HARNESS
{
  unsigned int q = vf_range(0, MAXN / 3); gn = 3 * q + R; V_ASSUME(gn <= MAXN); gg = vf_u32(); unsigned int groups = (gn + 2) / 3;
  V_ASSUME(gg < groups || groups == 0);
#ifndef V_NATIVE
  __CPROVER_havoc_object(gin);
#endif
  unsigned char a = vf_u8(), b = vf_u8(), c = vf_u8();
  if(groups) { gin[3 * gg] = a; if(3 * gg + 1 < gn) gin[3 * gg + 1] = b; if(3 * gg + 2 < gn) gin[3 * gg + 2] = c; }
  if(groups) for(unsigned int i = 0; i < 4; i++) gs[i] = spec(4 * gg + i);
  unsigned char* out = NULL; unsigned int n = 0;
  rtError r = rtBase64_encode(gin, gn, &out, &n);
  V_CHECK(r == RT_OK && out != NULL, "a byte string within the limit is encoded");
  V_CHECK(n > 4 * groups, "the reported size has room for the text and its terminator");
  if(groups) for(unsigned int i = 0; i < 4; i++) V_CHECK(out[4 * gg + i] == gs[i], "every character is the one of the standard encoding");
  V_CHECK(out[4 * groups] == 0, "the text is terminated");
  V_REACH("end");
  V_END;
}
