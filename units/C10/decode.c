//@ desc: decoding valid text yields exactly the encoded bytes; any other text is refused; nothing outside the text and the allocated result is touched
//@ functions: rtBase64_decode decode_base64_char
//@ sources: src/rtmessage/rtMemory.c
//@ nsources: @all
//@ loops: decode.json
//@ fallback: unwind=18 -DMAXN=12
//@ unwind: 6
//@ timeout: 800
//@ flags: --sat-solver cadical
//@ variant: valid0 -DVALID=1 -DPAD=0
//@ variant: valid1 -DVALID=1 -DPAD=1
//@ variant: valid2 -DVALID=1 -DPAD=2
//@ variant: hostile -DVALID=0 -DPAD=0
//@ unwindset: vf_harness.0:1370
#include "vf.h"
#include "rtBase64.c"
#ifndef MAXN
#define MAXN (RBUS_BASE64_DATA_SIZE_LIMIT)
#endif
unsigned char gin[MAXN]; unsigned int gg; unsigned char gs[3]; bool gbad, gvalid;
static int digit(unsigned char c)
{ return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
V_HARNESS
{
  static unsigned char none[1];
  unsigned int n = vf_u32(); V_ASSUME(n <= MAXN); gg = vf_u32(); gvalid = VALID;
  unsigned char* text = n ? gin + (MAXN - n) : none; /* the text ends where its object ends */
#ifndef V_NATIVE
  __CPROVER_havoc_object(gin);
#else
  memset(gin, 'A', MAXN);
#endif
#if VALID
  V_ASSUME(n % 4 == 0 && (n > 0 || PAD == 0));
#ifndef V_NATIVE
  for(unsigned int i = 0; i < MAXN - PAD; i++) V_ASSUME(digit(gin[i]) >= 0);
#endif
  for(unsigned int i = 0; i < PAD; i++) gin[MAXN - 1 - i] = '=';
#endif
  V_ASSUME(n == 0 || gg < (n + 3) / 4);
  unsigned int got = 3, last = n / 4;
  if(n >= 4 && n % 4 == 0)
  {
    for(unsigned int i = 0; i < 4; i++) { unsigned char c = vf_u8(); V_ASSUME(!VALID || digit(c) >= 0 || 4 * gg + i + PAD >= n); if(!(VALID && 4 * gg + i + PAD >= n)) text[4 * gg + i] = c; }
    unsigned char* t = text + 4 * gg;
    if(gg + 1 == last && t[3] == '=') got = t[2] == '=' ? 1 : 2;
    int a = digit(t[0]), b = digit(t[1]), c = got > 1 ? digit(t[2]) : 0, d = got > 2 ? digit(t[3]) : 0;
    gbad = a < 0 || b < 0 || c < 0 || d < 0;
    uint32_t w = (uint32_t)a << 18 | (uint32_t)b << 12 | (uint32_t)c << 6 | (uint32_t)d;
    gs[0] = w >> 16; gs[1] = w >> 8; gs[2] = w;
  }
  void* out = NULL; unsigned int size = 77;
  rtError r = rtBase64_decode(text, n, &out, &size);
  if(n % 4) V_CHECK(r != RT_OK, "text that is not made of groups of four is refused");
  else if(VALID) {
    V_CHECK(r == RT_OK && out != NULL, "valid text is decoded");
    V_CHECK(size == n / 4 * 3 - PAD, "to the number of bytes it stands for"); }
  if(r == RT_OK && n) {
    V_CHECK(!gbad, "text with a character outside the alphabet is refused");
    for(unsigned int i = 0; i < got; i++) V_CHECK(((unsigned char*)out)[3 * gg + i] == gs[i], "every byte is the one encoded"); }
  if(r == RT_OK && n == 0) V_CHECK(size == 0, "no text stands for no bytes");
  V_REACH("end");
  V_END;
}
