//@ desc: rbusValue_Compare returns zero exactly for equal values, flips its sign with the operands, orders integers of all types and widths exactly, strings and byte arrays lexicographically reading only their own bytes, date-times by the instant they denote
//@ functions: rbusValue_Compare
//@ sources: src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c
//@ unwind: 20
//@ variant: integral -DU=1
//@ variant: real -DU=2
//@ variant: string -DU=3 kind=bounded bound=texts,of,up,to,5,characters,each
//@ variant: bytes -DU=4 kind=bounded bound=byte,arrays,of,up,to,5,bytes,each
//@ variant: datetime -DU=5 -DMINS kind=bounded bound=offsets,in,quarters,of,an,hour
//@ variant: mixed -DU=6
//@ trusted: timegm (the C library's calendar)
#include "vf.h"
#include "rbus_value.c"
#include "vf_value.h"
static int sgn(int x) { return (x > 0) - (x < 0); }
static __int128 whole(rbusValue_t v)
{
  switch(v->type) {
  case RBUS_BOOLEAN: return v->d.b; case RBUS_CHAR: return v->d.c; case RBUS_BYTE: return v->d.u; case RBUS_INT8: return v->d.i8;
  case RBUS_UINT8: return v->d.u8; case RBUS_INT16: return v->d.i16; case RBUS_UINT16: return v->d.u16; case RBUS_INT32: return v->d.i32;
  case RBUS_UINT32: return v->d.u32; case RBUS_INT64: return v->d.i64; default: return v->d.u64; }
}
#if U == 5
static rbusDateTime_t *d1, *d2; static int64_t T1, T2;
#define SAME(t, d) ((t)->tm_year == (d)->m_time.tm_year && (t)->tm_mon == (d)->m_time.tm_mon && (t)->tm_mday == (d)->m_time.tm_mday && (t)->tm_hour == (d)->m_time.tm_hour && (t)->tm_min == (d)->m_time.tm_min && (t)->tm_sec == (d)->m_time.tm_sec)
#define YEAR(d) ((d)->m_time.tm_year)
#ifndef V_NATIVE
time_t timegm(struct tm* t) /* any function of the six calendar fields */
{
  bool a = SAME(t, d1), b = SAME(t, d2);
  V_CHECK(a || b, "the calendar is asked about the local times of the two values");
  return a ? T1 : T2;
}
#else
static int64_t cal(rbusDateTime_t* d) { struct tm t = {0}; t.tm_year = d->m_time.tm_year; t.tm_mon = d->m_time.tm_mon; t.tm_mday = d->m_time.tm_mday; t.tm_hour = d->m_time.tm_hour; t.tm_min = d->m_time.tm_min; t.tm_sec = d->m_time.tm_sec; return timegm(&t); }
#endif
#endif
#define LIM 5
static void text(struct _rbusValue* v, struct _rbusBuffer* b, rbusValueType_t t, unsigned n)
{
  v->type = t; v->d.bytes = b; b->lenAlloc = 64; b->posRead = 0;
  b->posWrite = (t == RBUS_STRING) ? n + 1 : n;
  b->data = malloc(b->posWrite ? b->posWrite : 1);
  for(unsigned i = 0; i < n; i++) { uint8_t c = vf_u8(); if(t == RBUS_STRING) V_ASSUME(c != 0); b->data[i] = c; }
  if(t == RBUS_STRING) b->data[n] = 0;
}
static void texts(rbusValueType_t t, unsigned n1, unsigned n2)
{
  struct _rbusValue v1 = {0}, v2 = {0}; struct _rbusBuffer b1 = {0}, b2 = {0}; int want = 0;
  text(&v1, &b1, t, n1); text(&v2, &b2, t, n2);
  for(unsigned i = 0; i < n1 && i < n2 && !want; i++) want = sgn(b1.data[i] - b2.data[i]);
  if(!want) want = (n1 > n2) - (n1 < n2);
  V_CHECK(sgn(rbusValue_Compare(&v1, &v2)) == want, "ordered by content, a proper prefix first");
  V_CHECK(sgn(rbusValue_Compare(&v2, &v1)) == -want, "swapping the operands flips the sign");
  if(n1 == n2 && n1 == 2) { if(want == 0) V_REACH("equal texts"); }
}
V_HARNESS
{
  struct _rbusValue v1 = {0}, v2 = {0};
#if U == 1
  for(int t1 = RBUS_BOOLEAN; t1 <= RBUS_UINT64; t1++) for(int t2 = t1; t2 <= RBUS_UINT64; t2++)
  {
    struct _rbusValue w1 = {0}, w2 = {0};
    vf_scalar_into(&w1, t1); vf_scalar_into(&w2, t2);
    __int128 a = whole(&w1), b = whole(&w2); int r = rbusValue_Compare(&w1, &w2);
    V_CHECK(sgn(r) == (a > b) - (a < b), "integers are ordered by their exact value");
    V_CHECK(sgn(rbusValue_Compare(&w2, &w1)) == -sgn(r), "swapping the operands flips the sign");
    if(t1 == RBUS_INT64) { if(r == 0) V_REACH("equal integers"); else V_REACH("different integers"); }
  }
#elif U == 2
  for(int t1 = RBUS_SINGLE; t1 <= RBUS_DOUBLE; t1++) for(int t2 = RBUS_BOOLEAN; t2 <= t1; t2++)
  {
    struct _rbusValue w1 = {0}, w2 = {0};
    vf_scalar_into(&w1, t1); vf_scalar_into(&w2, t2);
    double a = t1 == RBUS_SINGLE ? (double)w1.d.f32 : w1.d.f64, b = t2 == RBUS_SINGLE ? (double)w2.d.f32 : t2 == RBUS_DOUBLE ? w2.d.f64 : t2 == RBUS_UINT64 ? (double)w2.d.u64 : (double)(int64_t)whole(&w2);
    int r = rbusValue_Compare(&w1, &w2);
    if(a == a && b == b) { V_CHECK(sgn(r) == (a > b) - (a < b), "numbers are ordered by value"); if(t2 == RBUS_DOUBLE) V_REACH("numbers"); }
    else { V_CHECK((r == 0) == (a != a && b != b), "not-a-number equals only itself"); if(t2 == RBUS_DOUBLE) V_REACH("not-a-number"); }
    V_CHECK(sgn(rbusValue_Compare(&w2, &w1)) == -sgn(r), "swapping the operands flips the sign");
  }
#elif U == 3 || U == 4
  rbusValueType_t t = U == 3 ? RBUS_STRING : RBUS_BYTES; struct _rbusBuffer b = {0};
  for(unsigned i = 0; i <= LIM; i++) for(unsigned j = 0; j <= i; j++) texts(t, i, j);
  v1.type = v2.type = t; V_CHECK(rbusValue_Compare(&v1, &v2) == 0, "two unset ones are equal");
  text(&v2, &b, t, 2); V_CHECK(rbusValue_Compare(&v1, &v2) < 0 && rbusValue_Compare(&v2, &v1) > 0, "an unset one differs from a set one");
  V_REACH("end");
#elif U == 5
  vf_scalar_into(&v1, RBUS_DATETIME); vf_scalar_into(&v2, RBUS_DATETIME);
  d1 = &v1.d.tv; d2 = &v2.d.tv;
#define SANE(d) (d->m_tz.m_tzhour >= 0 && d->m_tz.m_tzhour <= 14 && d->m_tz.m_tzmin >= 0 && d->m_tz.m_tzmin < 60 && YEAR(d) > -1900 && YEAR(d) < 10000)
  V_ASSUME(SANE(d1) && SANE(d2));
#ifdef MINS
  d1->m_tz.m_tzmin = 15 * (vf_u8() & 3); d2->m_tz.m_tzmin = 15 * (vf_u8() & 3);
#endif
  T1 = vf_i64() >> 12; T2 = vf_i64() >> 12;
#ifdef V_NATIVE
  T1 = cal(d1); T2 = cal(d2);
#else
  if(SAME(&d2->m_time, d1)) T2 = T1;
#endif
  int r = rbusValue_Compare(&v1, &v2);
#define OFF(d) ((d->m_tz.m_isWest ? -1 : 1) * (d->m_tz.m_tzhour * 3600 + d->m_tz.m_tzmin * 60))
  int64_t a = T1 - OFF(d1), b = T2 - OFF(d2);
  V_CHECK(sgn(r) == (a > b) - (a < b), "date-times are ordered by the instant they denote");
  V_CHECK(sgn(rbusValue_Compare(&v2, &v1)) == -sgn(r), "swapping the operands flips the sign");
  if(r == 0) V_REACH("same instant"); else V_REACH("different instants");
#else
  for(int t1 = RBUS_BOOLEAN; t1 <= RBUS_BYTES; t1++) for(int t2 = t1 + 1; t2 <= RBUS_BYTES; t2++)
  {
    if(t2 <= RBUS_DOUBLE) continue;
    struct _rbusValue w1 = {0}, w2 = {0}; struct _rbusBuffer b1 = {0}, b2 = {0};
    if(VF_IS_SCALAR(t1)) vf_scalar_into(&w1, t1); else text(&w1, &b1, t1, 1);
    if(VF_IS_SCALAR(t2)) vf_scalar_into(&w2, t2); else text(&w2, &b2, t2, 1);
    int r = rbusValue_Compare(&w1, &w2);
    V_CHECK(r != 0, "values of different kinds differ"); V_CHECK(sgn(rbusValue_Compare(&w2, &w1)) == -sgn(r), "swapping the operands flips the sign");
    V_CHECK(rbusValue_Compare(&w2, &w2) == 0, "a value equals itself");
    r = rbusValue_Compare(NULL, &w1); V_CHECK(r != 0 && sgn(rbusValue_Compare(&w1, NULL)) == -sgn(r), "a value differs from nothing");
  }
  V_CHECK(rbusValue_Compare(NULL, NULL) == 0, "nothing equals nothing");
  V_REACH("end");
#endif
  V_END;
}
