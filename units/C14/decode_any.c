//@ desc: Decode of arbitrary bytes (any type, any length field, any truncation): either fails, leaving no value, or yields a well-formed value made only of written bytes, consuming no more than was written
//@ functions: rbusValue_Decode rbusBuffer_Read
//@ sources: src/rbus/rbus_buffer.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ nsources: src/rbus/rbus_property.c src/rbus/rbus_object.c
//@ kind: bounded
//@ bound: 2 to 51 written bytes, each arbitrary except the type field which is enumerated, in an exactly sized heap block
//@ unwindset: memcpy.0:70,memset.0:70,strlen.0:16,strnlen.0:16,vf_harness.0:70,vf_fill.0:70
//@ timeout: 250
//@ cost: 60
//@ variant: header -DNW=2
//@ variant: bool -DNW=4 -DTYPE=RBUS_BOOLEAN
//@ variant: u16 -DNW=5 -DTYPE=RBUS_UINT16
//@ variant: i32 -DNW=7 -DTYPE=RBUS_INT32
//@ variant: i64 -DNW=11 -DTYPE=RBUS_INT64
//@ variant: u8 -DNW=5 -DTYPE=RBUS_UINT8 -DEXPECT_OK -DNOREJ
//@ variant: string -DNW=6 -DTYPE=RBUS_STRING -DEXPECT_OK
//@ variant: bytes -DNW=6 -DTYPE=RBUS_BYTES -DEXPECT_OK
//@ variant: datetime -DNW=51 -DTYPE=RBUS_DATETIME
//@ variant: none -DNW=6 -DTYPE=RBUS_NONE
//@ variant: object -DNW=6 -DTYPE=RBUS_OBJECT
//@ variant: property -DNW=6 -DTYPE=RBUS_PROPERTY
//@ variant: unknown -DNW=6 -DTYPE=0xffff
//@ variant: zero -DNW=6 -DTYPE=0
#include "vf.h"
#include "rbus_value.c"
#include "vf_value.h"
V_HARNESS
{
  struct _rbusBuffer b; rbusValue_t w = NULL;
  int from = 0;
  b.data = malloc(NW);      /* exactly the written bytes: touching any other is a memory error */
  vf_fill(b.data, NW);
#ifdef TYPE
  b.data[0] = TYPE & 0xff; b.data[1] = TYPE >> 8;
#endif
  b.lenAlloc = 128; b.posWrite = NW; b.posRead = from;
  int rc = rbusValue_Decode(&w, &b);
  V_CHECK(b.posRead >= from && b.posRead <= NW, "never consumes more than was written");
  if(rc < 0) { V_CHECK(w == NULL, "a failed decode leaves no value behind"); 
#ifndef NOREJ
    V_REACH("rejected");
#endif
  }
  else
  {
    V_CHECK(w != NULL, "a successful decode yields a value");
    uint16_t type = b.data[from] | b.data[from + 1] << 8, len = b.data[from + 2] | b.data[from + 3] << 8;
    V_CHECK(w->type == type, "the value has the encoded type");
    V_CHECK(VF_IS_SCALAR(type) || type == RBUS_STRING || type == RBUS_BYTES, "only encodable types decode");
    if(type == RBUS_STRING || type == RBUS_BYTES)
    {
      V_CHECK(w->d.bytes != NULL && w->d.bytes->posWrite == len && from + 4 + len == b.posRead && len <= NW - 4, "exactly the encoded length");
      int k = vf_u8(); V_ASSUME(k < len);
      V_CHECK(w->d.bytes->data[k] == b.data[from + 4 + k], "exactly the encoded bytes");
      if(type == RBUS_STRING) V_CHECK(w->d.bytes->data[len - 1] == 0 && (k == len - 1) == (w->d.bytes->data[k] == 0), "a string is terminated at its last byte");
    }
    else
    {
      size_t sz = vf_scalar_size(type);
      V_CHECK(b.posRead == (int)(from + 4 + sz), "exactly the size of the type is consumed");
    }
#ifdef EXPECT_OK
    V_REACH("accepted");
#endif
  }
  V_END;
}
