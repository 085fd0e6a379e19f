//@ desc: a header whose topics fit survives encode and decode field for field, for all field values and topic contents, and the length field is the number of bytes written
//@ functions: rtMessageHeader_Encode rtMessageHeader_Decode rtEncoder_EncodeUInt16 rtEncoder_EncodeUInt32 rtEncoder_EncodeString rtEncoder_DecodeUInt16 rtEncoder_DecodeUInt32 rtEncoder_DecodeStr
//@ sources: src/rtmessage/rtMessageHeader.c src/rtmessage/rtEncoder.c vlib/vf_mem.c
//@ unwind: 258
//@ flags: --max-field-sensitivity-array-size 600
//@ kind: bounded
//@ bound: topic lengths: every length 0..255 of either topic with the other fixed (quick: around powers of two, 16 each), and both at 0/255; all characters and fields symbolic
//@ variant: topic0 -DLENS=0,1,2,3 -DW=0
//@ variant: topic7 -DLENS=7,8,15,16 -DW=0
//@ variant: topic17 -DLENS=17,31,32,63 -DW=0
//@ variant: topic64 -DLENS=64,65,100,127 -DW=0
//@ variant: topic128 -DLENS=128,129,200,253 -DW=0
//@ variant: topic254 -DLENS=254,255,191,192 -DW=0
//@ variant: topic-all0 -DLENS=0,1,2,3,4,5,6,7 -DW=0 tier=thorough
//@ variant: topic-all8 -DLENS=8,9,10,11,12,13,14,15 -DW=0 tier=thorough
//@ variant: topic-all16 -DLENS=16,17,18,19,20,21,22,23 -DW=0 tier=thorough
//@ variant: topic-all24 -DLENS=24,25,26,27,28,29,30,31 -DW=0 tier=thorough
//@ variant: topic-all32 -DLENS=32,33,34,35,36,37,38,39 -DW=0 tier=thorough
//@ variant: topic-all40 -DLENS=40,41,42,43,44,45,46,47 -DW=0 tier=thorough
//@ variant: topic-all48 -DLENS=48,49,50,51,52,53,54,55 -DW=0 tier=thorough
//@ variant: topic-all56 -DLENS=56,57,58,59,60,61,62,63 -DW=0 tier=thorough
//@ variant: topic-all64 -DLENS=64,65,66,67,68,69,70,71 -DW=0 tier=thorough
//@ variant: topic-all72 -DLENS=72,73,74,75,76,77,78,79 -DW=0 tier=thorough
//@ variant: topic-all80 -DLENS=80,81,82,83,84,85,86,87 -DW=0 tier=thorough
//@ variant: topic-all88 -DLENS=88,89,90,91,92,93,94,95 -DW=0 tier=thorough
//@ variant: topic-all96 -DLENS=96,97,98,99,100,101,102,103 -DW=0 tier=thorough
//@ variant: topic-all104 -DLENS=104,105,106,107,108,109,110,111 -DW=0 tier=thorough
//@ variant: topic-all112 -DLENS=112,113,114,115,116,117,118,119 -DW=0 tier=thorough
//@ variant: topic-all120 -DLENS=120,121,122,123,124,125,126,127 -DW=0 tier=thorough
//@ variant: topic-all128 -DLENS=128,129,130,131,132,133,134,135 -DW=0 tier=thorough
//@ variant: topic-all136 -DLENS=136,137,138,139,140,141,142,143 -DW=0 tier=thorough
//@ variant: topic-all144 -DLENS=144,145,146,147,148,149,150,151 -DW=0 tier=thorough
//@ variant: topic-all152 -DLENS=152,153,154,155,156,157,158,159 -DW=0 tier=thorough
//@ variant: topic-all160 -DLENS=160,161,162,163,164,165,166,167 -DW=0 tier=thorough
//@ variant: topic-all168 -DLENS=168,169,170,171,172,173,174,175 -DW=0 tier=thorough
//@ variant: topic-all176 -DLENS=176,177,178,179,180,181,182,183 -DW=0 tier=thorough
//@ variant: topic-all184 -DLENS=184,185,186,187,188,189,190,191 -DW=0 tier=thorough
//@ variant: topic-all192 -DLENS=192,193,194,195,196,197,198,199 -DW=0 tier=thorough
//@ variant: topic-all200 -DLENS=200,201,202,203,204,205,206,207 -DW=0 tier=thorough
//@ variant: topic-all208 -DLENS=208,209,210,211,212,213,214,215 -DW=0 tier=thorough
//@ variant: topic-all216 -DLENS=216,217,218,219,220,221,222,223 -DW=0 tier=thorough
//@ variant: topic-all224 -DLENS=224,225,226,227,228,229,230,231 -DW=0 tier=thorough
//@ variant: topic-all232 -DLENS=232,233,234,235,236,237,238,239 -DW=0 tier=thorough
//@ variant: topic-all240 -DLENS=240,241,242,243,244,245,246,247 -DW=0 tier=thorough
//@ variant: topic-all248 -DLENS=248,249,250,251,252,253,254,255 -DW=0 tier=thorough
//@ variant: reply0 -DLENS=0,1,2,3 -DW=1
//@ variant: reply7 -DLENS=7,8,15,16 -DW=1
//@ variant: reply17 -DLENS=17,31,32,63 -DW=1
//@ variant: reply64 -DLENS=64,65,100,127 -DW=1
//@ variant: reply128 -DLENS=128,129,200,253 -DW=1
//@ variant: reply254 -DLENS=254,255,191,192 -DW=1
//@ variant: reply-all0 -DLENS=0,1,2,3,4,5,6,7 -DW=1 tier=thorough
//@ variant: reply-all8 -DLENS=8,9,10,11,12,13,14,15 -DW=1 tier=thorough
//@ variant: reply-all16 -DLENS=16,17,18,19,20,21,22,23 -DW=1 tier=thorough
//@ variant: reply-all24 -DLENS=24,25,26,27,28,29,30,31 -DW=1 tier=thorough
//@ variant: reply-all32 -DLENS=32,33,34,35,36,37,38,39 -DW=1 tier=thorough
//@ variant: reply-all40 -DLENS=40,41,42,43,44,45,46,47 -DW=1 tier=thorough
//@ variant: reply-all48 -DLENS=48,49,50,51,52,53,54,55 -DW=1 tier=thorough
//@ variant: reply-all56 -DLENS=56,57,58,59,60,61,62,63 -DW=1 tier=thorough
//@ variant: reply-all64 -DLENS=64,65,66,67,68,69,70,71 -DW=1 tier=thorough
//@ variant: reply-all72 -DLENS=72,73,74,75,76,77,78,79 -DW=1 tier=thorough
//@ variant: reply-all80 -DLENS=80,81,82,83,84,85,86,87 -DW=1 tier=thorough
//@ variant: reply-all88 -DLENS=88,89,90,91,92,93,94,95 -DW=1 tier=thorough
//@ variant: reply-all96 -DLENS=96,97,98,99,100,101,102,103 -DW=1 tier=thorough
//@ variant: reply-all104 -DLENS=104,105,106,107,108,109,110,111 -DW=1 tier=thorough
//@ variant: reply-all112 -DLENS=112,113,114,115,116,117,118,119 -DW=1 tier=thorough
//@ variant: reply-all120 -DLENS=120,121,122,123,124,125,126,127 -DW=1 tier=thorough
//@ variant: reply-all128 -DLENS=128,129,130,131,132,133,134,135 -DW=1 tier=thorough
//@ variant: reply-all136 -DLENS=136,137,138,139,140,141,142,143 -DW=1 tier=thorough
//@ variant: reply-all144 -DLENS=144,145,146,147,148,149,150,151 -DW=1 tier=thorough
//@ variant: reply-all152 -DLENS=152,153,154,155,156,157,158,159 -DW=1 tier=thorough
//@ variant: reply-all160 -DLENS=160,161,162,163,164,165,166,167 -DW=1 tier=thorough
//@ variant: reply-all168 -DLENS=168,169,170,171,172,173,174,175 -DW=1 tier=thorough
//@ variant: reply-all176 -DLENS=176,177,178,179,180,181,182,183 -DW=1 tier=thorough
//@ variant: reply-all184 -DLENS=184,185,186,187,188,189,190,191 -DW=1 tier=thorough
//@ variant: reply-all192 -DLENS=192,193,194,195,196,197,198,199 -DW=1 tier=thorough
//@ variant: reply-all200 -DLENS=200,201,202,203,204,205,206,207 -DW=1 tier=thorough
//@ variant: reply-all208 -DLENS=208,209,210,211,212,213,214,215 -DW=1 tier=thorough
//@ variant: reply-all216 -DLENS=216,217,218,219,220,221,222,223 -DW=1 tier=thorough
//@ variant: reply-all224 -DLENS=224,225,226,227,228,229,230,231 -DW=1 tier=thorough
//@ variant: reply-all232 -DLENS=232,233,234,235,236,237,238,239 -DW=1 tier=thorough
//@ variant: reply-all240 -DLENS=240,241,242,243,244,245,246,247 -DW=1 tier=thorough
//@ variant: reply-all248 -DLENS=248,249,250,251,252,253,254,255 -DW=1 tier=thorough
//@ variant: extremes -DLENS=0,1,2,3 -DW=2
#include "vf.h"
#include "rtMessageHeader.h"
static rtMessageHeader h, g; static uint32_t la, lb; static char ta[256], tb[256]; static uint8_t wire[52 + 2 * (RTMSG_HEADER_MAX_TOPIC_LENGTH - 1)];
#ifndef V_NATIVE
/* the topics are made here: their lengths are known */
size_t strlen(char const* s) { size_t n = s == h.topic || s == g.topic ? la : lb; V_CHECK(s[n] == 0, "a terminator is where the length says"); return n; }
#endif
V_HARNESS
{
  for(int i = 0; i < 255; i++) { ta[i] = (char)vf_u8(); tb[i] = (char)vf_u8(); V_ASSUME(ta[i] != 0 && tb[i] != 0); }
  uint32_t v[9]; for(int i = 0; i < 9; i++) v[i] = vf_u32();
  rtMessageHeader_Init(&h); rtMessageHeader_Init(&g);
  for(int i = 0; i < 255; i++) { h.topic[i] = ta[i]; h.reply_topic[i] = tb[i]; }
  static const uint32_t lens[] = { LENS };
  for(unsigned q = 0; q < sizeof lens / sizeof *lens; q++)
  {
    uint32_t k = lens[q];
    for(int i = 0; i < 255; i++) { h.topic[i] = ta[i]; h.reply_topic[i] = tb[i]; }
    la = W == 0 ? k : W == 1 ? 11 : k & 1 ? 255 : 0; lb = W == 0 ? 7 : W == 1 ? k : k & 2 ? 255 : 0;
    h.topic[la] = h.reply_topic[lb] = 0; g.topic[la] = g.reply_topic[lb] = 0x5a; /* stale contents behind the topic */
    if(52 + la + lb < sizeof wire) wire[52 + la + lb] = 0x5a;
    h.sequence_number = v[0]; h.flags = v[1]; h.control_data = v[2]; h.payload_length = v[3]; h.topic_length = la; h.reply_topic_length = lb;
#ifdef MSG_ROUNDTRIP_TIME
    h.T1 = v[4]; h.T2 = v[5]; h.T3 = v[6]; h.T4 = v[7]; h.T5 = v[8];
#endif
    V_CHECK(rtMessageHeader_Encode(&h, wire) == RT_OK, "the header is encoded");
    V_CHECK(h.header_length == 52 + la + lb, "the length counts every field and both topics");
    V_CHECK(wire[52 + la + lb - 2] == 0xAA && wire[52 + la + lb - 1] == 0xAA, "the encoding ends at its length");
    if(52 + la + lb < sizeof wire) V_CHECK(wire[52 + la + lb] == 0x5a, "and nothing is written behind it");
    V_CHECK(wire[4] == h.header_length >> 8 && wire[5] == (h.header_length & 255), "the length is sent in network order at its fixed place");
    V_CHECK(rtMessageHeader_Decode(&g, wire) == RT_OK, "an encoded header is accepted");
    V_CHECK(g.version == RTMSG_HEADER_VERSION && g.header_length == h.header_length, "version and length arrive");
    V_CHECK(g.sequence_number == v[0] && g.flags == v[1] && g.control_data == v[2] && g.payload_length == v[3], "numbers arrive");
    V_CHECK(g.topic_length == la && g.reply_topic_length == lb, "topic lengths arrive");
    bool ok = g.topic[la] == 0 && g.reply_topic[lb] == 0;
    for(uint32_t i = 0; i < la; i++) ok = ok && g.topic[i] == ta[i];
    for(uint32_t i = 0; i < lb; i++) ok = ok && g.reply_topic[i] == tb[i];
    V_CHECK(ok, "both topics arrive, character by character and terminated");
#ifdef MSG_ROUNDTRIP_TIME
    V_CHECK(g.T1 == (time_t)v[4] && g.T2 == (time_t)v[5] && g.T3 == (time_t)v[6] && g.T4 == (time_t)v[7] && g.T5 == (time_t)v[8], "timestamps arrive");
#endif
  }
  V_REACH("end");
  V_END;
}
