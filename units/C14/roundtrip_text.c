//@ desc: Encode then Decode is the identity on strings and byte arrays (arbitrary content, length N), followed by a second value, around the allocation boundary; consumes exactly what was produced
//@ functions: rbusValue_Encode rbusValue_Decode rbusBuffer_Write rbusBuffer_Reserve rbusBuffer_Read rbusValue_SetString rbusValue_SetBytes rbusBuffer_WriteStringTLV rbusBuffer_WriteBytesTLV
//@ sources: src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: src/rbus/rbus_property.c src/rbus/rbus_object.c
//@ kind: bounded
//@ bound: lengths and buffer positions enumerated, contents arbitrary
//@ unwindset: memcpy.0:200,memset.0:200,strlen.0:70,strnlen.0:70,vf_harness.0:70,vf_harness.1:70,one.0:70
//@ timeout: 200
//@ cost: 40
//@ variant: s0 -DN=0 -DTEXT
//@ variant: s1 -DN=1 -DTEXT
//@ variant: s11 -DN=11 -DTEXT
//@ variant: s63 -DN=63 -DTEXT
//@ variant: b0 -DN=0
//@ variant: b1 -DN=1
//@ variant: b7 -DN=7
//@ variant: b64 -DN=64
#include "vf.h"
#include "rbus_value.c"
#include "vf_value.h"
#ifndef V_NATIVE
/* the only strings here are N long: libc's specification, with the (checked) result kept constant */
size_t strlen(char const* s)
{ for(int i = 0; i < N; i++) V_CHECK(s[i] != 0, "string handed to strlen has the stored length"); V_CHECK(s[N] == 0, "string handed to strlen is terminated"); return N; }
size_t strnlen(char const* s, size_t n)
{ if(n < N) return n; for(int i = 0; i < N; i++) V_CHECK(s[i] != 0, "string handed to strnlen has the stored length"); if(n == N) return N; V_CHECK(s[N] == 0, "string handed to strnlen is terminated"); return N; }
#endif
#include "vf_value.h"
static char txt[N + 1];
static void one(struct _rbusValue* v2, int blocks, int pos)
{
  struct _rbusValue v1 = {0}; struct _rbusBuffer b; rbusValue_t w1 = NULL, w2 = NULL;
#ifdef TEXT
  rbusValue_SetString(&v1, txt);
#else
  rbusValue_SetBytes(&v1, (uint8_t*)txt, N);
#endif
  b.lenAlloc = blocks * 64;
  b.posWrite = b.posRead = pos;
  b.data = (blocks == 1) ? b.block1 : malloc(b.lenAlloc);
  rbusValue_Encode(&v1, &b);
  rbusValue_Encode(v2, &b);
  V_CHECK(BUF_WF(&b), "encode keeps the buffer well formed");
  V_CHECK(rbusValue_Decode(&w1, &b) >= 0, "first encoded value decodes");
#ifdef TEXT
  V_CHECK(w1 != NULL && w1->type == RBUS_STRING && w1->d.bytes->posWrite == N + 1, "decoded as a string of the same length");
#else
  V_CHECK(w1 != NULL && w1->type == RBUS_BYTES && w1->d.bytes->posWrite == N, "decoded as a byte array of the same length");
#endif
  for(int i = 0; i < N; i++) V_CHECK(w1->d.bytes->data[i] == (unsigned char)txt[i], "decoded content equals the encoded one");
  V_CHECK(rbusValue_Decode(&w2, &b) >= 0, "second encoded value decodes");
  V_CHECK(w2 != NULL && vf_scalar_eq(v2, w2), "second decoded value equals the encoded one");
  V_CHECK(b.posRead == b.posWrite, "decoding consumes exactly the encoded bytes");
}
V_HARNESS
{
  struct _rbusValue v2 = {0};
  vf_scalar_into(&v2, RBUS_INT16);
  for(int i = 0; i < N; i++) { uint8_t c = vf_u8();
#ifdef TEXT
    V_ASSUME(c != 0);
#endif
    txt[i] = (char)c; }
  static const int at[] = { 0, 64 - 11 - N, 64 - 10 - N, 64 - 9 - N, 64 - 5 - N, 64 - 4 - N, 63, 64 };
  for(int i = 0; i < 8; i++) if(at[i] >= 0) { one(&v2, 1, at[i]); one(&v2, 2, 64 + at[i]); }
  V_REACH("end");
  V_END;
}
