//@ desc: whatever bytes stand in place of a header, decoding stays inside the bytes a header can have and accepts only bounded, terminated topics whose lengths agree with the header's
//@ functions: rtMessageHeader_Decode rtEncoder_DecodeUInt16 rtEncoder_DecodeUInt32 rtEncoder_DecodeStr
//@ sources: src/rtmessage/rtMessageHeader.c src/rtmessage/rtEncoder.c vlib/vf_mem.c
//@ unwind: 563
//@ flags: --max-field-sensitivity-array-size 600
//@ kind: bounded
//@ bound: the pairs of topic lengths listed, below, at and beyond the limit; every other byte symbolic
//@ variant: short -DLENS=0,0,1,2,2,1,3,17
//@ variant: limit -DLENS=255,0,0,255,255,255,254,255
//@ variant: beyond -DLENS=256,0,0,256,255,256,256,256,257,3,3,257
//@ variant: huge -DLENS=0xffffffff,0,0,0xffffffff,0x80000000,5,5,0x80000000,0x10000,1,1,0x10000,0x100,0xfffffff0
#include "vf.h"
#include "rtMessageHeader.h"
static rtMessageHeader g;
static uint8_t wire[52 + 2 * (RTMSG_HEADER_MAX_TOPIC_LENGTH - 1)];
static void put(unsigned at, uint32_t v) { wire[at] = v >> 24; wire[at + 1] = v >> 16; wire[at + 2] = v >> 8; wire[at + 3] = v; }
V_HARNESS
{
  static const uint32_t lens[] = { LENS };
  unsigned accepted = 0;
  for(unsigned q = 0; q < sizeof lens / sizeof *lens; q += 2)
  {
    uint32_t la = lens[q], lb = lens[q + 1];
    for(unsigned i = 0; i < sizeof wire; i++) wire[i] = vf_u8();
    memset(&g, 0x5a, sizeof g);
    put(22, la);
    if(la < RTMSG_HEADER_MAX_TOPIC_LENGTH) put(26 + la, lb);
    rtError e = rtMessageHeader_Decode(&g, wire);
    if(e == RT_OK)
    {
      accepted++;
      V_CHECK(la < RTMSG_HEADER_MAX_TOPIC_LENGTH && lb < RTMSG_HEADER_MAX_TOPIC_LENGTH, "a topic beyond the limit is rejected");
      V_CHECK(wire[0] == 0xAA && wire[1] == 0xAA && wire[50 + la + lb] == 0xAA && wire[51 + la + lb] == 0xAA, "a header without its markers is rejected");
      V_CHECK(g.topic_length == la && g.reply_topic_length == lb, "lengths are those on the wire");
      V_CHECK(g.topic[la] == 0 && g.reply_topic[lb] == 0, "topics are terminated");
      V_CHECK(g.header_length == 52 + la + lb && wire[4] == g.header_length >> 8 && wire[5] == (g.header_length & 255), "a header whose length field disagrees with its contents is rejected");
    }
  }
  V_REACH("end");
  V_END;
}
