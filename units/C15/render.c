//@ desc: rendering writes only inside the caller's buffer whatever its size and cuts what does not fit; without a buffer it returns a text long enough; the text of an integer or boolean denotes exactly the stored number
//@ functions: rbusValue_ToString
//@ sources: src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ unwind: 20
//@ flags: --object-bits 13
//@ unwindset: memcpy.0:80,memset.0:80,snprintf.0:60,snprintf.1:60
//@ variant: scalars -DU=1
//@ variant: string -DU=2 kind=bounded bound=strings,of,5,characters,buffers,of,0,to,8,bytes
//@ variant: bytes -DU=3 kind=bounded bound=arrays,of,3,bytes,buffers,of,0,to,8,bytes
//@ variant: datetime -DU=4
//@ trusted: snprintf/sprintf write at most the given number of bytes, as the C standard says
#include "vf.h"
#include <stdarg.h>
#ifndef V_NATIVE /* the verifier does not promote the variable arguments: do it here, as the C standard says */
#define PR0()
#define PR1(a) , (a) + 0
#define PR2(a, b) , (a) + 0, (b) + 0
#define PR3(a, b, c) PR2(a, b) PR1(c)
#define PR4(a, b, c, d) PR2(a, b) PR2(c, d)
#define PR5(a, b, c, d, e) PR4(a, b, c, d) PR1(e)
#define PR6(a, b, c, d, e, f) PR4(a, b, c, d) PR2(e, f)
#define PR7(a, b, c, d, e, f, g) PR4(a, b, c, d) PR3(e, f, g)
#define PR8(a, b, c, d, e, f, g, h) PR4(a, b, c, d) PR4(e, f, g, h)
#define PRN(_0, _1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define PRX(...) PRN(_0, ##__VA_ARGS__, PR8, PR7, PR6, PR5, PR4, PR3, PR2, PR1, PR0)(__VA_ARGS__)
#define snprintf(p, n, f, ...) (snprintf)(p, n, f PRX(__VA_ARGS__))
#endif
#include "rbus_value.c"
#include "vf_value.h"
#ifndef V_NATIVE
static __int128 shown; static char const* shown_s; static int conv, L;
int (snprintf)(char* p, size_t n, char const* f, ...)
{
  va_list ap; va_start(ap, f); int longs = 0, shorts = 0; conv = 0;
  for(int i = 0; f[i]; i++) if(f[i] == '%')
  {
    for(i++; f[i] == '-' || f[i] == '.' || f[i] == '*' || (f[i] >= '0' && f[i] <= '9'); i++) if(f[i] == '*') (void)va_arg(ap, int);
    longs = shorts = 0; for(; f[i] == 'l' || f[i] == 'h' || f[i] == 'z'; i++) { if(f[i] == 'h') shorts++; else longs++; }
    conv++;
    switch(f[i]) {
    case 'd': case 'i': shown = longs ? (__int128)va_arg(ap, long) : shorts == 1 ? (__int128)(short)va_arg(ap, int) : shorts == 2 ? (__int128)(signed char)va_arg(ap, int) : (__int128)va_arg(ap, int); break;
    case 'u': case 'x': case 'X': shown = longs ? (__int128)va_arg(ap, unsigned long) : shorts == 1 ? (__int128)(unsigned short)va_arg(ap, unsigned) : shorts == 2 ? (__int128)(unsigned char)va_arg(ap, unsigned) : (__int128)va_arg(ap, unsigned); break;
    case 's': shown_s = va_arg(ap, char const*); break;
    case 'c': shown = va_arg(ap, int); break;
    default: (void)va_arg(ap, double); break;
    }
  }
  va_end(ap);
  if(n > 0) { V_CHECK(__CPROVER_w_ok(p, n), "the rendering stays inside the buffer"); p[0] = '?'; p[(size_t)L < n ? (size_t)L : n - 1] = 0; }
  return L;
}
int sprintf(char* p, char const* f, ...)
{ V_CHECK(__CPROVER_w_ok(p, 3), "a byte's two digits and the terminator stay inside the buffer"); p[0] = p[1] = 'F'; p[2] = 0; return 2; }
#endif
static char box[16];
static void guard(int n) { for(int i = 0; i < 16; i++) box[i] = (char)(i < n ? 0 : 0x5a); }
static void guarded(int n) { for(int i = n; i < 16; i++) V_CHECK(box[i] == 0x5a, "nothing is written behind the given size"); }
V_HARNESS
{
#ifndef V_NATIVE
  L = (int)vf_range(1, 12);
#else
  (void)vf_u32();
#endif
#if U == 1
  for(int t = RBUS_BOOLEAN; t <= RBUS_UINT64; t++)
  {
    struct _rbusValue v = {0}; vf_scalar_into(&v, t);
    char* s = rbusValue_ToString(&v, NULL, 0);
    V_CHECK(s != NULL, "a text is returned");
#ifndef V_NATIVE
    V_CHECK(conv == 1, "one item is rendered");
    V_CHECK(__CPROVER_w_ok(s, L + 1), "and it is long enough");
    if(t == RBUS_BOOLEAN) V_CHECK(shown_s && strcmp(shown_s, v.d.b ? "true" : "false") == 0, "a boolean literal");
    else { __int128 x = t == RBUS_CHAR ? v.d.c : t == RBUS_BYTE ? v.d.u : t == RBUS_INT8 ? v.d.i8 : t == RBUS_UINT8 ? v.d.u8 : t == RBUS_INT16 ? v.d.i16 : t == RBUS_UINT16 ? v.d.u16 : t == RBUS_INT32 ? v.d.i32 : t == RBUS_UINT32 ? v.d.u32 : t == RBUS_INT64 ? v.d.i64 : (__int128)v.d.u64;
      V_CHECK(shown == x, "the number rendered is the one stored"); }
#else
    if(t != RBUS_CHAR && t != RBUS_BYTE) { struct _rbusValue w = {0}; V_CHECK(rbusValue_SetFromString(&w, t, s) && vf_scalar_eq(&v, &w), "the number rendered is the one stored"); }
#endif
    free(s);
    for(int n = 0; n <= 3; n++) { guard(n); V_CHECK(rbusValue_ToString(&v, box, n) == box, "the given buffer is used"); guarded(n); }
  }
#elif U == 2 || U == 3
  struct _rbusValue v = {0}; struct _rbusBuffer b = {0}; char in[6] = {0}; int len = U == 2 ? 5 : 3;
  for(int i = 0; i < len; i++) { in[i] = (char)vf_u8(); if(U == 2) V_ASSUME(in[i] != 0); }
  v.type = U == 2 ? RBUS_STRING : RBUS_BYTES; v.d.bytes = &b; b.data = (uint8_t*)in; b.lenAlloc = 64; b.posWrite = len + (U == 2);
  for(int n = 0; n <= 8; n++)
  {
    guard(n); V_CHECK(rbusValue_ToString(&v, box, n) == box, "the given buffer is used"); guarded(n);
    if(U == 2) for(int i = 0; i < n && i < len + 1; i++) V_CHECK(box[i] == in[i], "as much of the string as fits is copied");
    if(U == 3 && n > 0) { bool z = false; for(int i = 0; i < n; i++) if(!box[i]) z = true; V_CHECK(z, "byte arrays are rendered as a terminated text"); }
  }
  char* s = rbusValue_ToString(&v, NULL, 0);
  if(U == 2) { V_CHECK(s != NULL, "a text is returned"); for(int i = 0; i <= len; i++) V_CHECK(s[i] == in[i], "it is the string"); }
  else V_CHECK(s != NULL && s[6] == 0 && s[5] != 0 && s[0] != 0, "two digits for every byte");
  free(s);
  v.d.bytes = NULL; guard(4); box[0] = 7; V_CHECK(rbusValue_ToString(&v, box, 4) == box && box[0] == 0, "an unset text renders as nothing"); guarded(4);
  s = rbusValue_ToString(&v, NULL, 0); V_CHECK(s && s[0] == 0, "an unset text renders as nothing"); free(s);
#else
  struct _rbusValue v = {0}; vf_scalar_into(&v, RBUS_DATETIME);
  for(int n = 0; n <= 3; n++) { guard(n); V_CHECK(rbusValue_ToString(&v, box, n) == box, "the given buffer is used"); guarded(n); }
  V_CHECK(rbusValue_ToString(NULL, box, 3) == NULL, "no value has no text"); v.type = RBUS_NONE; V_CHECK(rbusValue_ToString(&v, box, 3) == NULL, "an empty value has no text");
#endif
  V_REACH("end");
  V_END;
}
