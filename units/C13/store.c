//@ desc: whatever a value held before (every type, set or unset), after a typed store its type, content, raw length and raw bytes are exactly what was stored; copying from any prior state gives an independent equal value
//@ functions: rbusValue_SetBoolean rbusValue_SetChar rbusValue_SetByte rbusValue_SetInt8 rbusValue_SetUInt8 rbusValue_SetInt16 rbusValue_SetUInt16 rbusValue_SetInt32 rbusValue_SetUInt32 rbusValue_SetInt64 rbusValue_SetUInt64 rbusValue_SetSingle rbusValue_SetDouble rbusValue_SetTime rbusValue_SetString rbusValue_SetBytes rbusValue_SetProperty rbusValue_SetObject rbusValue_SetTLV rbusValue_Copy rbusValue_Swap rbusValue_GetType rbusValue_GetL rbusValue_GetV rbusValue_GetString rbusValue_GetBytes
//@ sources: src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ unwind: 20
//@ unwindset: memcpy.0:200,memset.0:200,strlen.0:8
//@ cost: 60
//@ variant: scalars0 -DU=1 -DLO=0 -DHI=5
//@ variant: tlv0 -DU=5 -DLO=0 -DHI=5
//@ variant: copy0_0 -DU=6 -DLO=0 -DHI=5 -DQLO=0 -DQHI=6
//@ variant: copy0_6 -DU=6 -DLO=0 -DHI=5 -DQLO=6 -DQHI=11
//@ variant: copy0_11 -DU=6 -DLO=0 -DHI=5 -DQLO=11 -DQHI=99
//@ variant: scalars5 -DU=1 -DLO=5 -DHI=10
//@ variant: tlv5 -DU=5 -DLO=5 -DHI=10
//@ variant: copy5_0 -DU=6 -DLO=5 -DHI=10 -DQLO=0 -DQHI=6
//@ variant: copy5_6 -DU=6 -DLO=5 -DHI=10 -DQLO=6 -DQHI=11
//@ variant: copy5_11 -DU=6 -DLO=5 -DHI=10 -DQLO=11 -DQHI=99 tier=thorough
//@ variant: scalars10 -DU=1 -DLO=10 -DHI=16
//@ variant: tlv10 -DU=5 -DLO=10 -DHI=16
//@ variant: copy10_0 -DU=6 -DLO=10 -DHI=16 -DQLO=0 -DQHI=6
//@ variant: copy10_6 -DU=6 -DLO=10 -DHI=16 -DQLO=6 -DQHI=11
//@ variant: copy10_11 -DU=6 -DLO=10 -DHI=16 -DQLO=11 -DQHI=99 tier=thorough
//@ variant: scalars16 -DU=1 -DLO=16 -DHI=20
//@ variant: tlv16 -DU=5 -DLO=16 -DHI=20
//@ variant: copy16_0 -DU=6 -DLO=16 -DHI=20 -DQLO=0 -DQHI=6
//@ variant: copy16_6 -DU=6 -DLO=16 -DHI=20 -DQLO=6 -DQHI=11
//@ variant: copy16_11 -DU=6 -DLO=16 -DHI=20 -DQLO=11 -DQHI=99 tier=thorough
//@ variant: scalars20 -DU=1 -DLO=20 -DHI=30
//@ variant: tlv20 -DU=5 -DLO=20 -DHI=30
//@ variant: copy20_0 -DU=6 -DLO=20 -DHI=30 -DQLO=0 -DQHI=6
//@ variant: copy20_6 -DU=6 -DLO=20 -DHI=30 -DQLO=6 -DQHI=11
//@ variant: copy20_11 -DU=6 -DLO=20 -DHI=30 -DQLO=11 -DQHI=99
//@ variant: text -DU=2 kind=bounded bound=texts,of,4,and,fewer,characters
//@ variant: bytes -DU=3 kind=bounded bound=byte,arrays,of,5,and,fewer,bytes
//@ variant: holders -DU=4
//@ variant: swap -DU=7
#include "vf.h"
#include "rbus_value.c"
#include "vf_value.h"
#ifndef LO
#define LO 0
#define HI S_COUNT
#endif
static rbusProperty_t P; static rbusObject_t O;
#ifndef V_NATIVE
/* libc's specification with the (checked) result kept constant: every string here has a length known beforehand */
static int SL;
size_t strlen(char const* s)
{ for(int i = 0; i < SL; i++) V_CHECK(s[i] != 0, "string handed to strlen has the stored length"); V_CHECK(s[SL] == 0, "string handed to strlen is terminated"); return SL; }
#define LEN(n) (SL = (n))
#else
#define LEN(n) (void)0
#endif
/* every state a value can be in */
enum { S_NONE, S_SCALAR, S_STRING = S_SCALAR + RBUS_DATETIME - RBUS_BOOLEAN + 1, S_NOSTRING, S_BYTES, S_NOBYTES, S_PROPERTY, S_NOPROPERTY, S_OBJECT, S_NOOBJECT, S_COUNT };
static rbusValue_t prior(int s)
{
  rbusValue_t v = NULL; rbusValue_Init(&v);
  V_CHECK(v && rbusValue_GetType(v) == RBUS_NONE, "a new value holds nothing");
  if(s == S_STRING) { LEN(3); rbusValue_SetString(v, "old"); } else if(s == S_NOSTRING) rbusValue_SetString(v, NULL);
  else if(s == S_BYTES) rbusValue_SetBytes(v, (uint8_t const*)"ol", 2); else if(s == S_NOBYTES) rbusValue_SetBytes(v, NULL, 3);
  else if(s == S_PROPERTY) rbusValue_SetProperty(v, P); else if(s == S_NOPROPERTY) rbusValue_SetProperty(v, NULL);
  else if(s == S_OBJECT) rbusValue_SetObject(v, O); else if(s == S_NOOBJECT) rbusValue_SetObject(v, NULL);
  else if(s != S_NONE) { int t = RBUS_BOOLEAN + s - S_SCALAR; if(!VF_IS_SCALAR(t)) { rbusValue_Release(v); return NULL; } vf_scalar_into(v, t); }
  return v;
}
#define SCALARS(X) X(Boolean, bool, RBUS_BOOLEAN) X(Char, char, RBUS_CHAR) X(Byte, unsigned char, RBUS_BYTE) X(Int8, int8_t, RBUS_INT8) X(UInt8, uint8_t, RBUS_UINT8) \
  X(Int16, int16_t, RBUS_INT16) X(UInt16, uint16_t, RBUS_UINT16) X(Int32, int32_t, RBUS_INT32) X(UInt32, uint32_t, RBUS_UINT32) X(Int64, int64_t, RBUS_INT64) \
  X(UInt64, uint64_t, RBUS_UINT64) X(Single, float, RBUS_SINGLE) X(Double, double, RBUS_DOUBLE)
/* compare bits, not numbers: a not-a-number is stored unchanged, too */
static bool same(void const* a, void const* b, unsigned n)
{ unsigned char const *p = a, *q = b; for(unsigned i = 0; i < n; i++) if(p[i] != q[i]) return false; return true; }
static void text_is(rbusValue_t v, rbusValueType_t t, char const* s, int n)
{
  int len = -1, blen = -1; char const* g; uint8_t const* b; char const* gx = NULL; uint8_t const* bx = NULL;
  V_CHECK(rbusValue_GetType(v) == t, "the type is the stored one");
  g = rbusValue_GetString(v, &len); b = rbusValue_GetBytes(v, &blen);
  int stored = n + (t == RBUS_STRING);
  if(!s) { V_CHECK(g == NULL && b == NULL && len == 0 && blen == 0 && rbusValue_GetL(v) == 0 && rbusValue_GetV(v) == NULL, "an unset text is read as unset"); return; }
  V_CHECK(g && b && len == n && blen == stored, "the length is the stored one");
  V_CHECK((int)rbusValue_GetL(v) == stored && rbusValue_GetV(v) == b, "the raw view is the content");
  V_CHECK(same(g, s, stored) && same(b, s, stored), "the content is the stored one");
  V_CHECK((void*)b != (void*)s, "the content is the value's own copy");
  V_CHECK(rbusValue_GetStringEx(v, &gx, &len) == RBUS_VALUE_ERROR_SUCCESS && gx == g && len == n, "checked read agrees");
  V_CHECK(rbusValue_GetBytesEx(v, &bx, &blen) == RBUS_VALUE_ERROR_SUCCESS && bx == b && blen == stored, "checked raw read agrees");
}
V_HARNESS
{
  LEN(1); rbusProperty_Init(&P, "p", NULL); rbusObject_Init(&O, "o");
  char in[5]; for(int i = 0; i < 5; i++) in[i] = (char)vf_u8();
#if U == 2
  for(int i = 0; i < 4; i++) V_ASSUME(in[i] != 0);
  in[4] = 0;
#endif
  for(int s = LO; s < S_COUNT && s < HI; s++)
  {
    rbusValue_t v;
#if U == 1
#define ONE(N, T, E) if((v = prior(s))) { T x, y; uint64_t r = vf_u64(); if(E == RBUS_BOOLEAN) r &= 1; memcpy(&x, &r, sizeof x); memset(&y, 0, sizeof y); rbusValue_Set##N(v, x); \
      V_CHECK(rbusValue_GetType(v) == E && rbusValue_GetL(v) == sizeof(T) && same(rbusValue_GetV(v), &x, sizeof x), #N ": type and raw content are the stored ones"); \
      y = rbusValue_Get##N(v); V_CHECK(same(&x, &y, sizeof x), #N ": the content is the stored one"); memset(&y, 0, sizeof y); \
      V_CHECK(rbusValue_Get##N##Ex(v, &y) == RBUS_VALUE_ERROR_SUCCESS && same(&x, &y, sizeof x), #N ": the checked read agrees"); rbusValue_Release(v); }
    SCALARS(ONE)
    if((v = prior(s))) { rbusDateTime_t t = vf_datetime(); rbusDateTime_t const* y = NULL; rbusValue_SetTime(v, &t); V_CHECK(rbusValue_GetType(v) == RBUS_DATETIME && vf_datetime_eq(rbusValue_GetTime(v), &t), "Time: the content is the stored one");
      V_CHECK(rbusValue_GetL(v) == sizeof t && rbusValue_GetV(v) == (uint8_t const*)rbusValue_GetTime(v) && rbusValue_GetTimeEx(v, &y) == RBUS_VALUE_ERROR_SUCCESS && y == rbusValue_GetTime(v), "Time: raw and checked reads agree"); rbusValue_Release(v); }
#elif U == 2
    if((v = prior(s))) { LEN(4); rbusValue_SetString(v, in); text_is(v, RBUS_STRING, in, 4); LEN(0); rbusValue_SetString(v, ""); text_is(v, RBUS_STRING, "", 0); LEN(2); rbusValue_SetString(v, in + 2); text_is(v, RBUS_STRING, in + 2, 2);
      rbusValue_SetString(v, NULL); text_is(v, RBUS_STRING, NULL, 0); LEN(4); rbusValue_SetString(v, in); text_is(v, RBUS_STRING, in, 4); rbusValue_Release(v); }
#elif U == 3
    if((v = prior(s))) { uint8_t* b = (uint8_t*)in; rbusValue_SetBytes(v, b, 5); text_is(v, RBUS_BYTES, in, 5); rbusValue_SetBytes(v, b, 0); text_is(v, RBUS_BYTES, in, 0); rbusValue_SetBytes(v, b + 1, 3); text_is(v, RBUS_BYTES, in + 1, 3);
      rbusValue_SetBytes(v, NULL, 4); text_is(v, RBUS_BYTES, NULL, 0); rbusValue_SetBytes(v, b, 5); text_is(v, RBUS_BYTES, in, 5); rbusValue_Release(v); }
#elif U == 4
    if((v = prior(s))) { rbusProperty_t p = NULL; rbusValue_SetProperty(v, P); V_CHECK(rbusValue_GetType(v) == RBUS_PROPERTY && rbusValue_GetProperty(v) == P && rbusValue_GetPropertyEx(v, &p) == RBUS_VALUE_ERROR_SUCCESS && p == P, "the stored property is held");
      rbusValue_SetProperty(v, NULL); p = P; V_CHECK(rbusValue_GetType(v) == RBUS_PROPERTY && rbusValue_GetProperty(v) == NULL && rbusValue_GetPropertyEx(v, &p) == RBUS_VALUE_ERROR_SUCCESS && p == NULL, "no property is held"); rbusValue_Release(v); }
    if((v = prior(s))) { rbusObject_t o = NULL; rbusValue_SetObject(v, O); V_CHECK(rbusValue_GetType(v) == RBUS_OBJECT && rbusValue_GetObject(v) == O && rbusValue_GetObjectEx(v, &o) == RBUS_VALUE_ERROR_SUCCESS && o == O, "the stored object is held");
      rbusValue_SetObject(v, NULL); o = O; V_CHECK(rbusValue_GetType(v) == RBUS_OBJECT && rbusValue_GetObject(v) == NULL && rbusValue_GetObjectEx(v, &o) == RBUS_VALUE_ERROR_SUCCESS && o == NULL, "no object is held"); rbusValue_Release(v); }
#elif U == 5
    for(int t = RBUS_BOOLEAN; t <= RBUS_DATETIME; t++) if(VF_IS_SCALAR(t) && (v = prior(s)))
    { struct _rbusValue w = {0}; vf_scalar_into(&w, t); rbusValue_SetTLV(v, t, vf_scalar_size(t), &w.d); V_CHECK(rbusValue_GetType(v) == (rbusValueType_t)t && rbusValue_GetL(v) == vf_scalar_size(t) && vf_scalar_eq(v, &w), "the raw store is what is read"); rbusValue_Release(v); }
    if((v = prior(s))) { LEN(3); rbusValue_SetTLV(v, RBUS_STRING, 4, "abc"); text_is(v, RBUS_STRING, "abc", 3); rbusValue_SetTLV(v, RBUS_BYTES, 5, in); text_is(v, RBUS_BYTES, in, 5); LEN(0); rbusValue_SetTLV(v, RBUS_STRING, 1, ""); text_is(v, RBUS_STRING, "", 0); rbusValue_Release(v); }
#elif U == 6
    for(int q = QLO; q <= S_NOBYTES && q < QHI; q++)
    {
      rbusValue_t src = prior(q); v = src ? prior(s) : NULL;
      if(v)
      {
        struct _rbusValue was = *src;
        rbusValue_Copy(v, src);
        V_CHECK(rbusValue_GetType(v) == rbusValue_GetType(src), "the copy has the type of the original");
        V_CHECK(src->type == was.type && (q == S_NONE || (q >= S_STRING ? src->d.bytes == was.d.bytes : vf_scalar_eq(src, &was))), "the original is unchanged");
        if(q == S_STRING) { text_is(v, RBUS_STRING, "old", 3); LEN(3); rbusValue_SetString(v, "new"); text_is(src, RBUS_STRING, "old", 3); }
        else if(q == S_BYTES) { text_is(v, RBUS_BYTES, "ol", 2); rbusValue_SetBytes(v, (uint8_t*)"xx", 2); text_is(src, RBUS_BYTES, "ol", 2); }
        else if(q == S_NOSTRING || q == S_NOBYTES) text_is(v, q == S_NOSTRING ? RBUS_STRING : RBUS_BYTES, NULL, 0);
        else if(q != S_NONE) V_CHECK(vf_scalar_eq(v, &was), "the copy has the content of the original");
        rbusValue_Copy(v, v); V_CHECK(rbusValue_GetType(v) == was.type, "copying onto itself changes nothing");
        rbusValue_Release(v);
      }
      if(src) rbusValue_Release(src);
    }
#else
    rbusValue_t b = prior(S_STRING), a; v = prior(s); a = v;
    if(v) { struct _rbusValue wa = *v, wb = *b; rbusValue_t x = v, y = b; rbusValue_Swap(&x, &y);
      V_CHECK(x && y && x->type == wb.type && y->type == wa.type && same(&x->d, &wb.d, sizeof wb.d) && same(&y->d, &wa.d, sizeof wa.d), "the two values are exchanged");
      rbusValue_Swap(&x, &x); V_CHECK(x->type == wb.type, "swapping with itself changes nothing"); }
#endif
  }
  V_REACH("end");
  V_END;
}
