//@ desc: setting a number from text succeeds exactly when the whole text denotes a number of the type's range, then the value is exactly that number with that type; otherwise it fails and the value is as before -- for every number, sign, leading space and trailing garbage
//@ functions: rbusValue_SetFromString
//@ sources: src/rbus/rbus_buffer.c src/rbus/rbus_property.c src/rbus/rbus_object.c src/rtmessage/rtMemory.c src/rtmessage/rtRetainable.c vlib/vf_mem.c
//@ unwind: 12
//@ unwindset: memcpy.0:80,memset.0:80,mk.0:50,mk.1:50
//@ variant: int8 -DT=RBUS_INT8 -DLO=INT8_MIN -DHI=INT8_MAX -DF=i8
//@ variant: uint8 -DT=RBUS_UINT8 -DLO=0 -DHI=UINT8_MAX -DF=u8
//@ variant: int16 -DT=RBUS_INT16 -DLO=INT16_MIN -DHI=INT16_MAX -DF=i16
//@ variant: uint16 -DT=RBUS_UINT16 -DLO=0 -DHI=UINT16_MAX -DF=u16
//@ variant: int32 -DT=RBUS_INT32 -DLO=INT32_MIN -DHI=INT32_MAX -DF=i32
//@ variant: uint32 -DT=RBUS_UINT32 -DLO=0 -DHI=UINT32_MAX -DF=u32
//@ variant: int64 -DT=RBUS_INT64 -DLO=INT64_MIN -DHI=INT64_MAX -DF=i64
//@ variant: uint64 -DT=RBUS_UINT64 -DLO=0 -DHI=UINT64_MAX -DF=u64
//@ variant: boolean -DBOOL -DT=RBUS_BOOLEAN kind=bounded bound=texts,of,up,to,6,characters
//@ variant: single -DREAL -DT=RBUS_SINGLE -DF=f32
//@ variant: double -DREAL -DT=RBUS_DOUBLE -DF=f64
//@ variant: refused -DNONE
//@ trusted: strtol, strtoul, strtoll, strtoull, strtof and strtod behave as the C standard says (value, end of the parsed text, ERANGE)
#include "vf.h"
#include "rbus_value.c"
#include "vf_value.h"
/* what the text says */
static bool none, trailing, neg; static unsigned __int128 mag; static char text[64]; static char* end;
static void mk(unsigned spaces)
{
  unsigned n = 0;
  for(unsigned i = 0; i < spaces; i++) text[n++] = i ? '\t' : ' ';
  if(none) { text[n++] = 'q'; text[n] = 0; end = text; return; }
  if(neg) text[n++] = '-';
#ifdef V_NATIVE
  char d[48]; int k = 0; unsigned __int128 m = mag; do { d[k++] = '0' + (int)(m % 10); m /= 10; } while(m); while(k) text[n++] = d[--k];
#else
  text[n++] = '7'; text[n++] = '7';                                             /* stands for the digits of mag */
#endif
  end = text + n;
  if(trailing) text[n++] = '.';
  text[n] = 0;
}
#ifndef V_NATIVE
static unsigned long long parse(char const* s, char** e, bool is_signed)
{
  V_CHECK(s >= text && s < end + (none ? 1 : 0) || s == text, "parses the given text");
  if(e) *e = none ? (char*)s : end;
  if(none) return 0;
  if(is_signed) {
    if(!neg && mag > INT64_MAX) { errno = ERANGE; return INT64_MAX; }
    if(neg && mag > (unsigned __int128)INT64_MAX + 1) { errno = ERANGE; return (unsigned long long)INT64_MIN; }
  } else if(mag > UINT64_MAX) { errno = ERANGE; return UINT64_MAX; }
  return neg ? -(unsigned long long)mag : (unsigned long long)mag;
}
long strtol(char const* s, char** e, int b) { V_CHECK(b == 0 || b == 10, "decimal"); return (long)parse(s, e, true); }
long long strtoll(char const* s, char** e, int b) { V_CHECK(b == 0 || b == 10, "decimal"); return (long long)parse(s, e, true); }
unsigned long strtoul(char const* s, char** e, int b) { V_CHECK(b == 0 || b == 10, "decimal"); return parse(s, e, false); }
unsigned long long strtoull(char const* s, char** e, int b) { V_CHECK(b == 0 || b == 10, "decimal"); return parse(s, e, false); }
static bool range; static double number;
float strtof(char const* s, char** e) { if(e) *e = none ? (char*)s : end; if(none) return 0; if(range) errno = ERANGE; return (float)number; }
double strtod(char const* s, char** e) { if(e) *e = none ? (char*)s : end; if(none) return 0; if(range) errno = ERANGE; return number; }
unsigned short const** __ctype_b_loc(void) { static unsigned short tab[384]; static unsigned short const* p = tab + 128; for(int i = 9; i <= 13; i++) tab[128 + i] = _ISspace; tab[128 + 32] = _ISspace; return &p; }
#endif
static bool lit(char const* s, char const* a) /* equal ignoring case */
{ for(int i = 0; i < 8; i++) { char c = s[i]; if(c >= 'A' && c <= 'Z') c = (char)(c + 32); if(c != a[i]) return false; if(!a[i]) return true; } return false; }
static void unchanged(struct _rbusValue* v, struct _rbusValue const* was)
{ V_CHECK(v->type == was->type && v->d.u64 == was->d.u64, "a refused text leaves the value as it was"); }
V_HARNESS
{
  struct _rbusValue v = {0}, was; bool ok;
  v.type = RBUS_UINT64; v.d.u64 = vf_u64(); was = v;
#ifdef NONE
  strcpy(text, "5"); end = text + 1; mag = 5;
  V_CHECK(!rbusValue_SetFromString(&v, RBUS_PROPERTY, text), "no text denotes a property"); unchanged(&v, &was);
  V_CHECK(!rbusValue_SetFromString(&v, RBUS_OBJECT, text), "no text denotes an object"); unchanged(&v, &was);
  V_CHECK(!rbusValue_SetFromString(&v, RBUS_NONE, text), "no text denotes nothing"); unchanged(&v, &was);
  V_CHECK(!rbusValue_SetFromString(&v, (rbusValueType_t)0x7777, text), "no text denotes an unknown type"); unchanged(&v, &was);
  V_CHECK(!rbusValue_SetFromString(&v, RBUS_INT32, NULL), "no text"); unchanged(&v, &was);
  V_CHECK(!rbusValue_SetFromString(NULL, RBUS_INT32, text), "no value");
  V_REACH("end");
#elif defined(BOOL)
  vf_string(text, 7);
  bool t = lit(text, "true") || (text[0] == '1' && !text[1]), f = lit(text, "false") || (text[0] == '0' && !text[1]);
  ok = rbusValue_SetFromString(&v, T, text);
  V_CHECK(ok == (t || f), "accepted exactly when it is a boolean literal");
  if(ok) { V_CHECK(v.type == RBUS_BOOLEAN && v.d.b == t, "the value is the literal's"); V_REACH("accepted"); } else { unchanged(&v, &was); V_REACH("refused"); }
#else
  none = vf_bool(); trailing = vf_bool(); neg = vf_bool(); mag = vf_u64(); mag = (mag << 8) | vf_u8();
  unsigned spaces = vf_range(0, 2);
  mk(spaces);
#ifdef REAL
#ifdef V_NATIVE
  bool range = false; double number = (double)mag * (neg ? -1 : 1); 
#else
  range = vf_bool(); uint64_t bits = vf_u64(); memcpy(&number, &bits, 8);
#endif
  ok = rbusValue_SetFromString(&v, T, text);
  V_CHECK(ok == (!none && !trailing && !range), "accepted exactly when the whole text is a number in range");
  if(ok) { V_CHECK(v.type == T && (v.d.F == (__typeof__(v.d.F))number || number != number), "the value is that number"); V_REACH("accepted"); } else { unchanged(&v, &was); V_REACH("refused"); }
#else
  __int128 x = neg ? -(__int128)mag : (__int128)mag;
#if defined(V_NATIVE)
  if(trailing && 0) return 0;
#endif
  ok = rbusValue_SetFromString(&v, T, text);
  V_CHECK(ok == (!none && !trailing && x >= (__int128)LO && x <= (__int128)HI), "accepted exactly when the whole text is a number in the type's range");
  if(ok) { V_CHECK(v.type == T && (__int128)v.d.F == x, "the value is exactly that number"); V_REACH("accepted"); } else { unchanged(&v, &was); if(none) V_REACH("no number"); else V_REACH("refused"); }
#endif
#endif
  V_END;
}
