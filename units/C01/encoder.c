//@ desc: 16- and 32-bit numbers are written in network order over exactly their bytes and read back as they were, for every number, sign included
//@ functions: rtEncoder_EncodeUInt16 rtEncoder_DecodeUInt16 rtEncoder_EncodeUInt32 rtEncoder_DecodeUInt32 rtEncoder_EncodeString rtEncoder_DecodeString
//@ sources: src/rtmessage/rtEncoder.c vlib/vf_mem.c
//@ unwind: 12
#include "vf.h"
#include "rtEncoder.h"
V_HARNESS
{
  uint8_t w[24]; memset(w, 0x5a, sizeof w);
  uint8_t* p = w + 1; uint8_t const* q = w + 1;
  uint16_t a = vf_u16(), a2 = 0; uint32_t b = vf_u32(), b2 = 0;
  V_CHECK(rtEncoder_EncodeUInt16(&p, a) == RT_OK && p == w + 3, "a 16-bit number takes two bytes");
  V_CHECK(rtEncoder_EncodeUInt32(&p, b) == RT_OK && p == w + 7, "a 32-bit number takes four bytes");
  V_CHECK(w[0] == 0x5a && w[7] == 0x5a, "and no others are touched");
  V_CHECK(w[1] == a >> 8 && w[2] == (a & 255) && w[3] == b >> 24 && w[4] == (b >> 16 & 255) && w[5] == (b >> 8 & 255) && w[6] == (b & 255), "most significant byte first");
  V_CHECK(rtEncoder_DecodeUInt16(&q, &a2) == RT_OK && a2 == a && q == w + 3, "the 16-bit number is read back");
  V_CHECK(rtEncoder_DecodeUInt32(&q, &b2) == RT_OK && b2 == b && q == w + 7, "the 32-bit number is read back");
  char s[5], t[5] = {0}; for(int i = 0; i < 4; i++) s[i] = (char)vf_u8(); s[4] = 0;
  uint32_t n = 4, n2 = 0;
  V_CHECK(rtEncoder_EncodeString(&p, s, &n) == RT_OK && p == w + 15 && w[15] == 0x5a, "a string is its length and its characters");
  V_CHECK(rtEncoder_DecodeString(&q, t, &n2) == RT_OK && q == w + 15 && n2 == 4 && t[4] == 0, "read back over the same bytes");
  bool same = true; for(int i = 0; i < 4; i++) same = same && s[i] == t[i];
  V_CHECK(same, "with every character as it was, zero bytes included");
  V_REACH("end");
  V_END;
}
