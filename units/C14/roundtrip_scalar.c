//@ desc: Encode then Decode is the identity on every scalar value (arbitrary content), alone and followed by a second value, at every position relative to the buffer's allocation boundary; consumes exactly what was produced
//@ functions: rbusValue_Encode rbusValue_Decode rbusBuffer_Write rbusBuffer_Reserve rbusBuffer_Read
//@ sources: src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: src/rbus/rbus_property.c src/rbus/rbus_object.c
//@ unwindset: memcpy.0:200,strlen.0:130,vf_harness.0:70
//@ kind: bounded
//@ bound: 24 buffer positions around the allocation boundary enumerated, contents arbitrary
//@ variant: bool -DT1=RBUS_BOOLEAN -DSZ1=1
//@ variant: char -DT1=RBUS_CHAR -DSZ1=1
//@ variant: byte -DT1=RBUS_BYTE -DSZ1=1
//@ variant: i8 -DT1=RBUS_INT8 -DSZ1=1
//@ variant: u8 -DT1=RBUS_UINT8 -DSZ1=1
//@ variant: i16 -DT1=RBUS_INT16 -DSZ1=2
//@ variant: u16 -DT1=RBUS_UINT16 -DSZ1=2
//@ variant: i32 -DT1=RBUS_INT32 -DSZ1=4
//@ variant: u32 -DT1=RBUS_UINT32 -DSZ1=4
//@ variant: i64 -DT1=RBUS_INT64 -DSZ1=8
//@ variant: u64 -DT1=RBUS_UINT64 -DSZ1=8
//@ variant: single -DT1=RBUS_SINGLE -DSZ1=4
//@ variant: double -DT1=RBUS_DOUBLE -DSZ1=8
//@ variant: datetime -DT1=RBUS_DATETIME -DSZ1=48
#include "vf.h"
#include "rbus_value.c"
#include "vf_value.h"
static void one(struct _rbusValue* v1, struct _rbusValue* v2, int blocks, int pos)
{
  struct _rbusBuffer b; rbusValue_t w1 = NULL, w2 = NULL;
  b.lenAlloc = blocks * 64;
  b.posWrite = b.posRead = pos;
  b.data = (blocks == 1) ? b.block1 : malloc(b.lenAlloc);
  rbusValue_Encode(v1, &b);
  rbusValue_Encode(v2, &b);
  V_CHECK(BUF_WF(&b), "encode keeps the buffer well formed");
  V_CHECK(rbusValue_Decode(&w1, &b) >= 0, "first encoded value decodes");
  V_CHECK(w1 != NULL && vf_scalar_eq(v1, w1), "first decoded value equals the encoded one");
  V_CHECK(rbusValue_Decode(&w2, &b) >= 0, "second encoded value decodes");
  V_CHECK(w2 != NULL && vf_scalar_eq(v2, w2), "second decoded value equals the encoded one");
  V_CHECK(b.posRead == b.posWrite, "decoding consumes exactly the encoded bytes");
}
V_HARNESS
{
  struct _rbusValue v1 = {0}, v2 = {0};

  vf_scalar_into(&v1, T1); vf_scalar_into(&v2, RBUS_INT16);
  /* positions around every way the two records (4+SZ1 and 6 bytes) can meet the boundary at 64 */
  static const int far[] = { 0, 64 - 10 - SZ1 - 1, 64 - 10 - SZ1, 64 - 10 - SZ1 + 1, 64 - 6 - SZ1, 64 - 4 - SZ1, 63 - 4 - SZ1, 65 - 4 - SZ1, 60, 62, 63, 64 };
  for(int i = 0; i < 12; i++) { if(far[i] < 0) continue; one(&v1, &v2, 1, far[i]); one(&v1, &v2, 2, 64 + far[i]); }
  V_REACH("end");
  V_END;
}
