/* Arbitrary well-formed values and buffers (representation invariants used as preconditions). */
#ifndef VF_VALUE_H
#define VF_VALUE_H
/* include after the real rbus_value.c (and rbus_buffer.c) */
#ifndef VSTR
#define VSTR 8
#endif
/* representation invariant of a buffer */
#define BUF_WF(b) ((b)->data != NULL && (b)->lenAlloc >= 64 && (b)->posWrite >= 0 && (b)->posWrite <= (b)->lenAlloc \
                   && (b)->posRead >= 0 && (b)->posRead <= (b)->posWrite)
V_UNUSED static rbusDateTime_t vf_datetime(void)
{
  rbusDateTime_t t; memset(&t, 0, sizeof t);
  t.m_time.tm_sec = vf_i32(); t.m_time.tm_min = vf_i32(); t.m_time.tm_hour = vf_i32(); t.m_time.tm_mday = vf_i32();
  t.m_time.tm_mon = vf_i32(); t.m_time.tm_year = vf_i32(); t.m_time.tm_wday = vf_i32(); t.m_time.tm_yday = vf_i32();
  t.m_time.tm_isdst = vf_i32(); t.m_tz.m_tzhour = vf_i32(); t.m_tz.m_tzmin = vf_i32(); t.m_tz.m_isWest = vf_bool();
  return t;
}
/* an arbitrary value of the given scalar type, made without the code under test */
V_UNUSED static void vf_scalar_into(rbusValue_t v, rbusValueType_t type)
{
  uint64_t x = vf_u64();
  v->type = type;
  switch(type) {
  case RBUS_BOOLEAN: v->d.b = x & 1; break;
  case RBUS_CHAR: v->d.c = (char)x; break;
  case RBUS_BYTE: v->d.u = (unsigned char)x; break;
  case RBUS_INT8: v->d.i8 = (int8_t)x; break;
  case RBUS_UINT8: v->d.u8 = (uint8_t)x; break;
  case RBUS_INT16: v->d.i16 = (int16_t)x; break;
  case RBUS_UINT16: v->d.u16 = (uint16_t)x; break;
  case RBUS_INT32: v->d.i32 = (int32_t)x; break;
  case RBUS_UINT32: v->d.u32 = (uint32_t)x; break;
  case RBUS_INT64: v->d.i64 = (int64_t)x; break;
  case RBUS_UINT64: v->d.u64 = x; break;
  case RBUS_SINGLE: { uint32_t u = (uint32_t)x; memcpy(&v->d.f32, &u, 4); break; }
  case RBUS_DOUBLE: memcpy(&v->d.f64, &x, 8); break;
  case RBUS_DATETIME: v->d.tv = vf_datetime(); break;
  default: break;
  }
}
V_UNUSED static size_t vf_scalar_size(rbusValueType_t type)
{
  switch(type) {
  case RBUS_BOOLEAN: case RBUS_CHAR: case RBUS_BYTE: case RBUS_INT8: case RBUS_UINT8: return 1;
  case RBUS_INT16: case RBUS_UINT16: return 2;
  case RBUS_INT32: case RBUS_UINT32: case RBUS_SINGLE: return 4;
  case RBUS_INT64: case RBUS_UINT64: case RBUS_DOUBLE: return 8;
  case RBUS_DATETIME: return sizeof(rbusDateTime_t);
  default: return 0;
  }
}
V_UNUSED static bool vf_datetime_eq(rbusDateTime_t const* a, rbusDateTime_t const* b)
{
  return a->m_time.tm_sec == b->m_time.tm_sec && a->m_time.tm_min == b->m_time.tm_min && a->m_time.tm_hour == b->m_time.tm_hour &&
    a->m_time.tm_mday == b->m_time.tm_mday && a->m_time.tm_mon == b->m_time.tm_mon && a->m_time.tm_year == b->m_time.tm_year &&
    a->m_time.tm_wday == b->m_time.tm_wday && a->m_time.tm_yday == b->m_time.tm_yday && a->m_time.tm_isdst == b->m_time.tm_isdst &&
    a->m_tz.m_tzhour == b->m_tz.m_tzhour && a->m_tz.m_tzmin == b->m_tz.m_tzmin && a->m_tz.m_isWest == b->m_tz.m_isWest;
}
/* bit-for-bit equality of two scalar values of the same type */
V_UNUSED static bool vf_scalar_eq(rbusValue_t a, rbusValue_t b)
{
  if(a->type != b->type) return false;
  switch(vf_scalar_size(a->type)) {
  case 1: return a->d.u8 == b->d.u8;
  case 2: return a->d.u16 == b->d.u16;
  case 4: return a->d.u32 == b->d.u32;
  case 8: return a->d.u64 == b->d.u64;
  default: return a->type == RBUS_DATETIME && vf_datetime_eq(&a->d.tv, &b->d.tv);
  }
}
#define VF_IS_SCALAR(t) ((t) >= RBUS_BOOLEAN && (t) <= RBUS_DATETIME && (t) != RBUS_STRING && (t) != RBUS_BYTES)
#endif
